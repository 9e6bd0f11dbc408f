From f85cfd57788138c10932c8ab6c97964036e67b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 01/36] fix: an arc turns the same way on every call, whether
 given by length or by angle

---
 pyodrx/geometry.py | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 0ab0729..e360121 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -575,11 +575,14 @@ class Arc():
         if length != None and angle != None:
             raise ToManyOptionalArguments('both length and angle set, only one is requiered')
 
-        self.length = length
-        self.angle = angle
         if curvature == 0:
             raise ValueError('You are creating a straight line, please use Line instead')
         self.curvature = curvature
+        if length is None:
+            length = np.abs(angle/curvature)
+        self.length = length
+        # the direction of the turn is given by the curvature
+        self.angle = self.length * self.curvature
 
     def get_end_data(self,x,y,h):
         """ Returns information about the end point of the geometry
@@ -615,15 +618,7 @@ class Arc():
             x_0 = x - np.cos(phi_0)*radius
             y_0 = y - np.sin(phi_0)*radius
 
-        if self.length:
-            self.angle = self.length * self.curvature
-
         new_ang = self.angle + phi_0
-        if self.angle:         
-            self.length = np.abs(radius*self.angle)
-
-            
-
         new_h = h + self.angle
         new_x = np.cos(new_ang)*radius + x_0
         new_y = np.sin(new_ang)*radius + y_0
@@ -653,7 +648,6 @@ class Arc():
             length (float): length of the element
 
         """
-        print('inside the geometry we have ', end_x, end_y, end_h)
         x = end_x
         y = end_y 
         h = end_h
@@ -669,23 +663,12 @@ class Arc():
             x_0 = x - np.cos(phi_0)*radius
             y_0 = y - np.sin(phi_0)*radius
 
-        if self.length:
-            self.angle = self.length * inv_curv
-
-        new_ang = self.angle + phi_0
-        if self.angle:         
-            self.length = np.abs(radius*self.angle)
-
-            
-        
-        print('self andgle is ', self.angle )
-        print('h is ', h)
-        new_h = h + self.angle
+        # going backwards, the arc turns the other way
+        new_ang = phi_0 - self.angle
+        new_h = h - self.angle
         new_x = np.cos(new_ang)*radius + x_0
         new_y = np.sin(new_ang)*radius + y_0
 
-        print('out of the geometry we get ', new_x, new_y, new_h)
-
         return new_x, new_y, new_h, self.length
 
     def get_attributes(self):
-- 
2.43.0


From 821664efeaf2c70e02d4e01b4857c388fd55146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 02/36] fix: a spiral given by its angle turns by that angle,
 also when neither curvature is zero

---
 pyodrx/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index e360121..9db36e9 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -451,7 +451,8 @@ class Spiral():
         if sum([x!=None for x in [length,angle,cdot]]) > 1:
             raise ToManyOptionalArguments('Spiral is overdefined, please use only one of the optional inputs')
         if angle:
-            self.length = 2*abs(angle)/np.maximum(abs(curvend),abs(curvstart))
+            # the angle is the mean curvature times the length
+            self.length = 2*abs(angle)/abs(curvend + curvstart)
 
         elif cdot:
             self.length =  (self.curvend - self.curvstart) / cdot
-- 
2.43.0


From eb68f49089f834e795d62c35ff54f837bebba77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 03/36] fix: the start of a ParamPoly3 is found from its end

---
 pyodrx/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 9db36e9..2a53994 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -827,9 +827,10 @@ class ParamPoly3():
         newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
         newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3
 
-        new_x = x - (newu*np.cos(h)-np.sin(h)*newv)
-        new_y = y - (newu*np.sin(h)+np.cos(h)*newv)
+        # h points backwards along the curve, the u axis has the heading of its start
         new_h = h - np.arctan2(self.bv + 2*self.cv*p + 3*self.dv*p**2,self.bu + 2*self.cu*p + 3*self.du*p**2)
+        new_x = x + newu*np.cos(new_h)-np.sin(new_h)*newv
+        new_y = y + newu*np.sin(new_h)+np.cos(new_h)*newv
 
         return new_x, new_y, new_h, self.length
     def get_end_data(self,x,y,h):
-- 
2.43.0


From e454cefa84c7138a8b9cbd480285b295cbbe017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 04/36] fix: the end of a spiral whose curvatures are almost
 equal

---
 pyodrx/geometry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 2a53994..c79fcd1 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -916,6 +916,12 @@ class EulerSpiral(object):
             # Arc
             Cs = C0 + np.exp(1j * theta0) / kappa0 * (np.sin(kappa0 * s) + 1j * (1 - np.cos(kappa0 * s)))
 
+        elif kappa0**2 > 1e6 * np.abs(self._gamma):
+            # Almost an arc: the difference of the Fresnel integrals would cancel, integrate the heading instead
+            Cs = C0 + np.exp(1j * theta0) * \
+                (quad(lambda t: np.cos(self._gamma * t**2 / 2 + kappa0 * t), 0, s)[0] +
+                 1j * quad(lambda t: np.sin(self._gamma * t**2 / 2 + kappa0 * t), 0, s)[0])
+
         else:
             # Fresnel integrals
             Sa, Ca = fresnel((kappa0 + self._gamma * s) / np.sqrt(np.pi * np.abs(self._gamma)))
-- 
2.43.0


From 626fadef6c78ab0a90b1dec9666255d758605fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 05/36] fix: the end point of a road that was placed from its
 end

---
 pyodrx/opendrive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 39f0fc6..a0f5bba 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -301,7 +301,7 @@ class Road():
                 h (float): the end heading
 
         """
-        return self.planview.present_x, self.planview.present_y, self.planview.present_h
+        return self.planview.get_end_point()
     def get_attributes(self):
         """ returns the attributes as a dict of the Road
 
-- 
2.43.0


From ba0cf23b902612376624f2764af4326edd660ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 06/36] fix: the order and s of the geometries of a road that
 is placed from its end

---
 pyodrx/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index c79fcd1..6381ef1 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -286,10 +286,13 @@ class PlanView():
 
             length = sum(lengths)           
             self.present_s = 0
+            # the geometries were found from the last to the first
+            self._adjusted_geometries.reverse()
+            lengths.reverse()
              
             for i in range(len(self._raw_geometries)):
 
-                newgeom.set_s(self.present_s)
+                self._adjusted_geometries[i].set_s(self.present_s)
                 self.present_s += lengths[i]  
 
         self.adjusted = True
-- 
2.43.0


From 85c5c641356c4ee5bc686cf3c9e06efaba424bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 07/36] fix: adjusting roads whose junction has no road of the
 same id

---
 pyodrx/opendrive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index a0f5bba..c797128 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -501,8 +501,8 @@ class OpenDrive():
 
                     # check if it has a normal (road) predecessor 
                     if self.roads[k].predecessor is not None and \
-                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True and \
-                        self.roads[k].predecessor.element_type is not ElementType.junction: 
+                        self.roads[k].predecessor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}road {} to predecessor {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].predecessor.element_id))
@@ -522,8 +522,8 @@ class OpenDrive():
 
                     # check if geometry has a normal (road) successor 
                     elif self.roads[k].successor is not None and \
-                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True and \
-                        self.roads[k].successor.element_type is not ElementType.junction: 
+                        self.roads[k].successor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}successor {} to road {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].successor.element_id))
-- 
2.43.0


From ea5aeb35ce24cc4c6265cf393f3a63e3ec0e3b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 08/36] fix: compare the lanes of consecutive roads in the lane
 sections that meet

---
 pyodrx/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 5f3bfce..2803ccc 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -578,7 +578,7 @@ def _create_links_roads(pre_road,suc_road):
     """
     pre_linktype, pre_sign, pre_connecting_lanesec =  _get_related_lanesection(pre_road,suc_road)
     suc_linktype, _, suc_connecting_lanesec =  _get_related_lanesection(suc_road,pre_road)
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[-1].leftlanes):
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
             print(linkid)
@@ -590,7 +590,7 @@ def _create_links_roads(pre_road,suc_road):
         raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
 
 
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[-1].rightlanes):
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].rightlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].lane_id
             pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].add_link(pre_linktype,linkid)
-- 
2.43.0


From fbb366472fde405477668629d08965da5c7c0857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 09/36] fix: road ids given as text and as number are the same
 id when lanes are linked

---
 pyodrx/generators.py |  2 +-
 pyodrx/links.py      | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fa50d33..fd85442 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -386,5 +386,5 @@ def get_road_by_id(roads,id):
             Road
     """
     for r in roads:
-        if r.id == id:
+        if str(r.id) == str(id):
             return r
\ No newline at end of file
diff --git a/pyodrx/links.py b/pyodrx/links.py
index 2803ccc..5d4562c 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -438,7 +438,7 @@ def are_roads_consecutive(road1, road2):
 
     if road1.successor is not None and road2.predecessor is not None: 
         if road1.successor.element_type == ElementType.road and road2.predecessor.element_type == ElementType.road:
-            if road1.successor.element_id == road2.id and road2.predecessor.element_id == road1.id: 
+            if str(road1.successor.element_id) == str(road2.id) and str(road2.predecessor.element_id) == str(road1.id): 
                 return True 
 
     return False
@@ -532,7 +532,7 @@ def _get_related_lanesection(road,connected_road):
     sign = None
     road_lanesection_id = None
  
-    if road.successor and road.successor.element_id == connected_road.id:
+    if road.successor and str(road.successor.element_id) == str(connected_road.id):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -540,7 +540,7 @@ def _get_related_lanesection(road,connected_road):
             sign = -1
         road_lanesection_id = -1
 
-    elif road.predecessor and road.predecessor.element_id == connected_road.id:
+    elif road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
@@ -550,14 +550,14 @@ def _get_related_lanesection(road,connected_road):
 
     if connected_road.road_type != -1:
         # treat connecting road in junction differently 
-        if connected_road.predecessor.element_id == road.id:
+        if str(connected_road.predecessor.element_id) == str(road.id):
             if connected_road.predecessor.link_type == ContactPoint.start:
                 road_lanesection_id = -1
                 sign = -1
             else:
                 road_lanesection_id = 0
                 sign = 1
-        elif connected_road.successor.element_id == road.id:
+        elif str(connected_road.successor.element_id) == str(road.id):
             if connected_road.predecessor.link_type == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
-- 
2.43.0


From 55e45fd46e086377540e727dd83ac90c83fa6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 10/36] fix: link the lanes at both joints of a ring of two
 roads

---
 pyodrx/links.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 5d4562c..7280c73 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -458,7 +458,8 @@ def create_lane_links(road1,road2):
         #both are roads
         if are_roads_consecutive(road1, road2): 
             _create_links_roads(road1,road2)
-        elif are_roads_consecutive(road2, road1): 
+        # in a ring of two roads both are consecutive
+        if are_roads_consecutive(road2, road1): 
             _create_links_roads(road2,road1)
 
     # if road1.road_type == -1 and road2.road_type == -1:
@@ -576,8 +577,8 @@ def _create_links_roads(pre_road,suc_road):
             suc_road (Road): the successor road
 
     """
-    pre_linktype, pre_sign, pre_connecting_lanesec =  _get_related_lanesection(pre_road,suc_road)
-    suc_linktype, _, suc_connecting_lanesec =  _get_related_lanesection(suc_road,pre_road)
+    pre_linktype, pre_sign, pre_connecting_lanesec = 'successor', 1, -1
+    suc_linktype, suc_connecting_lanesec = 'predecessor', 0
     if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
-- 
2.43.0


From 6c7d0dc405968816b624bf7892f3ab66731e82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 11/36] fix: connecting roads are linked to the lane section at
 the contact point

---
 pyodrx/links.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 7280c73..38e7e37 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -552,14 +552,14 @@ def _get_related_lanesection(road,connected_road):
     if connected_road.road_type != -1:
         # treat connecting road in junction differently 
         if str(connected_road.predecessor.element_id) == str(road.id):
-            if connected_road.predecessor.link_type == ContactPoint.start:
-                road_lanesection_id = -1
+            if connected_road.predecessor.contact_point == ContactPoint.start:
+                road_lanesection_id = 0
                 sign = -1
             else:
-                road_lanesection_id = 0
+                road_lanesection_id = -1
                 sign = 1
         elif str(connected_road.successor.element_id) == str(road.id):
-            if connected_road.predecessor.link_type == ContactPoint.start:
+            if connected_road.successor.contact_point == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
             else:
-- 
2.43.0


From bed7926daa8975ee5a820a99ca0c7a3a4d55cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 12/36] fix: link all lanes of connecting roads that meet a
 road running the other way

---
 pyodrx/links.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 38e7e37..507231c 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -490,10 +490,15 @@ def _create_links_connecting_road(connecting,road):
     _, _, road_lanesection_id =  _get_related_lanesection(road,connecting)
 
     if connecting_lanesec != None:
+        # where the roads run in opposite directions, left lanes continue in right lanes
+        if sign == 1:
+            left_continues, right_continues = road.lanes.lanesections[road_lanesection_id].leftlanes, road.lanes.lanesections[road_lanesection_id].rightlanes
+        else:
+            left_continues, right_continues = road.lanes.lanesections[road_lanesection_id].rightlanes, road.lanes.lanesections[road_lanesection_id].leftlanes
         if connecting.lanes.lanesections[connecting_lanesec].leftlanes:
             # do left lanes
-            for i in range(len(connecting.lanes.lanesections[road_lanesection_id].leftlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].leftlanes[i].lane_id*sign
+            for i in range(len(connecting.lanes.lanesections[connecting_lanesec].leftlanes)):
+                linkid = left_continues[i].lane_id
                 if linktype == 'predecessor':
                     linkid += connecting.lane_offset_pred
                 else:
@@ -503,7 +508,7 @@ def _create_links_connecting_road(connecting,road):
         if connecting.lanes.lanesections[connecting_lanesec].rightlanes:
             # do right lanes
             for i in range(len(connecting.lanes.lanesections[connecting_lanesec].rightlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].rightlanes[i].lane_id*sign
+                linkid = right_continues[i].lane_id
                 if linktype == 'predecessor':
                     linkid += connecting.lane_offset_pred
                 else:
-- 
2.43.0


From 43169e60a9b16590b070613c65d56513770b11fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 13/36] fix: link the lanes of roads that meet with their ends
 or with their starts

---
 pyodrx/links.py | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 507231c..3ee617d 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -437,12 +437,26 @@ from .enumerations import ContactPoint
 def are_roads_consecutive(road1, road2): 
 
     if road1.successor is not None and road2.predecessor is not None: 
+        if road1.successor.contact_point == ContactPoint.end or road2.predecessor.contact_point == ContactPoint.start:
+            return False
         if road1.successor.element_type == ElementType.road and road2.predecessor.element_type == ElementType.road:
             if str(road1.successor.element_id) == str(road2.id) and str(road2.predecessor.element_id) == str(road1.id): 
                 return True 
 
     return False
 
+def _are_roads_facing(road1, road2, link_name):
+    """ True if the two roads are linked to each other by the same end (link_name is successor or predecessor)
+
+    """
+    contact_point = ContactPoint.end if link_name == 'successor' else ContactPoint.start
+    link1 = getattr(road1, link_name)
+    link2 = getattr(road2, link_name)
+    for link, other in [(link1, road2), (link2, road1)]:
+        if link is None or link.element_type != ElementType.road or str(link.element_id) != str(other.id) or link.contact_point != contact_point:
+            return False
+    return True
+
 def create_lane_links(road1,road2):
     """ create_lane_links takes to roads and if they are connected, match their lanes 
         and creates lane links. 
@@ -461,6 +475,11 @@ def create_lane_links(road1,road2):
         # in a ring of two roads both are consecutive
         if are_roads_consecutive(road2, road1): 
             _create_links_roads(road2,road1)
+        # roads that run in opposite directions and meet with their ends, or with their starts
+        if _are_roads_facing(road1, road2, 'successor'):
+            _create_links_facing_roads(road1, road2, 'successor', -1)
+        if _are_roads_facing(road1, road2, 'predecessor'):
+            _create_links_facing_roads(road1, road2, 'predecessor', 0)
 
     # if road1.road_type == -1 and road2.road_type == -1:
     #     #both are roads
@@ -604,3 +623,26 @@ def _create_links_roads(pre_road,suc_road):
     else:
         raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
 
+def _create_links_facing_roads(road1, road2, linktype, lanesec):
+    """ _create_links_facing_roads connects the lanes of two roads that meet with the same end, 
+        where the left lanes of one road continue in the right lanes of the other 
+
+        Parameters
+        ----------
+            road1 (Road): the first road
+
+            road2 (Road): the second road
+
+            linktype (str): successor if the roads meet with their ends, predecessor if they meet with their starts
+
+            lanesec (int): the lane section at that end
+
+    """
+    section1 = road1.lanes.lanesections[lanesec]
+    section2 = road2.lanes.lanesections[lanesec]
+    for lanes1, lanes2 in [(section1.leftlanes, section2.rightlanes), (section1.rightlanes, section2.leftlanes)]:
+        if len(lanes1) != len(lanes2):
+            raise NotSameAmountOfLanesError('Road ' + str(road1.id) + ' and road ' + str(road2.id) + ' does not have the same number of lanes.')
+        for lane1, lane2 in zip(lanes1, lanes2):
+            lane1.add_link(linktype, lane2.lane_id)
+            lane2.add_link(linktype, lane1.lane_id)
-- 
2.43.0


From beccd234d5184c8302437b7bd6d25d09b8b40b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 14/36] fix: junction lane links at reversed contacts name
 existing lanes of the connecting road

---
 pyodrx/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fd85442..e5f399d 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -330,7 +330,7 @@ def _create_junction_links(connection, nlanes,r_or_l,sign,from_offset=0,to_offse
                 Default: 0
     """
     for i in range(1, nlanes+1, 1):
-        connection.add_lanelink( r_or_l*i+from_offset, r_or_l*sign*i+to_offset)
+        connection.add_lanelink( r_or_l*sign*i+from_offset, r_or_l*i+to_offset)
 
 
 def create_junction(junction_roads, id, roads):
-- 
2.43.0


From 59476f0629d4ee4e00ecb7235272e831cd4454be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 15/36] fix: the lane offset at the successor of a connecting
 road applies to the lane of the incoming road

---
 pyodrx/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index e5f399d..a8c92ce 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -360,8 +360,8 @@ def create_junction(junction_roads, id, roads):
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
         _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
 
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,to_offset=jr.lane_offset_suc)
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,to_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,from_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,from_offset=jr.lane_offset_suc)
         junc.add_connection(conne1)
 
         # handle predecessor lanes
-- 
2.43.0


From 0420b9918ff2a98db741eda7d6ba93d67964ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 16/36] fix: automatic connection ids do not repeat an id given
 by the user

---
 pyodrx/links.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 3ee617d..d0b43df 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -409,6 +409,10 @@ class Junction():
                 connection (Connection): adds a connection to the junction
 
         """
+        # do not give an id that a connection already has
+        used_ids = [str(con.id) for con in self.connections]
+        while str(self._id_counter) in used_ids:
+            self._id_counter += 1
         connection._set_id(self._id_counter)
         self._id_counter += 1
         self.connections.append(connection)
-- 
2.43.0


From 07f6a25ce65ddd7c44e92190133354c7138b7312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 17/36] fix: adjusting roads again keeps the roads that are
 already placed

---
 pyodrx/opendrive.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index c797128..8a6a40d 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -477,7 +477,11 @@ class OpenDrive():
         count_total_adjusted_roads = 0
         fixed_road = False
         for k in self.roads:
-            if self.roads[k].planview.fixed:
+            if self.roads[k].planview.adjusted:
+                # already placed by an earlier call
+                count_total_adjusted_roads += 1
+                fixed_road = True
+            elif self.roads[k].planview.fixed:
                 self.roads[k].planview.adjust_geometries()
                 # print('Fixing Road: ' + k)
                 count_total_adjusted_roads += 1
-- 
2.43.0


From 0ae137439727323948a8b91fc0c18c10885d9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 18/36] fix: adjusting lanes again does not repeat their links

---
 pyodrx/lane.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 7b96b28..34c9f1d 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -272,6 +272,9 @@ class Lane():
 
             id (str/id): id of the linked lane
         """
+        # the same link can be found again when roads and lanes are adjusted again
+        if any(l.link_type == link_type and l.element_id == str(id) for l in self.links.links):
+            return
         self.links.add_link(_Link(link_type,str(id)))
 
     def _set_lane_id(self,lane_id):
-- 
2.43.0


From 1820ec2e46510696d10c4018e4f3d264b56d1a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 19/36] fix: roads of a junction with different lanes are
 reported with NotSameAmountOfLanesError

---
 pyodrx/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index a8c92ce..ed206ea 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -13,6 +13,7 @@ from .enumerations import RoadMarkType, MarkRule, ContactPoint, ElementType, Obj
 from .geometry import Line, Arc, Spiral, EulerSpiral, PlanView
 from .opendrive import Road, OpenDrive
 from .links import Junction, Connection, _get_related_lanesection
+from .exceptions import NotSameAmountOfLanesError
 
 
 STD_ROADMARK_SOLID = RoadMark(RoadMarkType.solid,0.2)
-- 
2.43.0


From 59c549c851b3cb7de1aca09886eaa1d4e5d924ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 20/36] fix: junction roads get the lanes that the first road
 has at the junction

---
 pyodrx/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index ed206ea..cf08511 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -209,9 +209,9 @@ def get_lanes_offset(road1, road2, contactpoint):
     #now we always look at lanesection[0] to take the number of lanes 
     #TO DO - understand if the roads are connect through end or start and then take the relative lane section 
     if contactpoint == ContactPoint.end: 
-        n_lanesection = 0 
-    else:
         n_lanesection = -1
+    else:
+        n_lanesection = 0
     if len(road1.lanes.lanesections[n_lanesection].leftlanes) == len(road2.lanes.lanesections[0].leftlanes) and len(road1.lanes.lanesections[n_lanesection].rightlanes) == len(road2.lanes.lanesections[0].rightlanes):
         n_lanes = len(road1.lanes.lanesections[n_lanesection].leftlanes) 
         lane_offset = road1.lanes.lanesections[n_lanesection].leftlanes[0].a     
-- 
2.43.0


From 21dd94eecc7adca52946121aa21b42979a90ed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 21/36] fix: create_road takes geometries that do not know
 their length yet

---
 pyodrx/generators.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index cf08511..2c05636 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -66,14 +66,11 @@ def create_road(geometry,id,left_lanes = 1, right_lanes = 1,road_type=-1,center_
             road (Road): a straight road
     """
     pv = PlanView()
-    raw_length = 0
     if isinstance(geometry,list):
         for g in geometry:
             pv.add_geometry(g)
-            raw_length += g.length
     else:
         pv.add_geometry(geometry)
-        raw_length += geometry.length
     
     # create centerlane
     lc = Lane(a=0)
-- 
2.43.0


From bebc54ec47297b93cf04ee91f9f2d2ad6e607fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 22/36] fix: roads placed against a connecting road take its
 lane offset into account

---
 pyodrx/opendrive.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 8a6a40d..2a6edaf 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -430,6 +430,16 @@ class OpenDrive():
 
         main_road = self.roads[str(road_id)]
 
+        # a connecting road is shifted by its lane offsets, so a road that is placed against it has to be shifted back
+        shift_back = 0
+        if self.roads[str(neighbour_id)].road_type != -1:
+            if contact_point == ContactPoint.start:
+                shift_back = self.roads[str(neighbour_id)].lane_offset_pred
+            else:
+                shift_back = self.roads[str(neighbour_id)].lane_offset_suc
+            if (contact_point == ContactPoint.start) == (neighbour_type == 'predecessor'):
+                shift_back = -shift_back # the roads run in opposite directions
+
         if neighbour_type == 'predecessor':
 
             if contact_point == ContactPoint.start :    
@@ -437,7 +447,7 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_pred
+            num_lane_offsets = main_road.lane_offset_pred - shift_back
             x = -num_lane_offsets*3*np.sin(h) + x
             y = num_lane_offsets*3*np.cos(h) + y
 
@@ -451,7 +461,7 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_suc
+            num_lane_offsets = main_road.lane_offset_suc - shift_back
             x = num_lane_offsets*3*np.sin(h) + x
             y = -num_lane_offsets*3*np.cos(h) + y
             main_road.planview.set_start_point(x,y,h)
-- 
2.43.0


From 61fdbdd9e2fd4e47299325ef91b657b8b6902b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 23/36] fix: the space given for a road mark that is neither
 solid nor broken

---
 pyodrx/lane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 34c9f1d..3f28516 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -540,7 +540,7 @@ class RoadMark():
             #create empty line if arguments are missing
             else: 
                 self.length = length or 0
-                self.space = length or 0
+                self.space = space or 0
                 print ("No defaults for arguments 'space' and 'length' for roadmark type", enum2str(marking_type), "available and no values were passed. Creating an empty roadmark.")
             #set remaining defaults
             self.width = width or 0.2
-- 
2.43.0


From 0ce28cfe0bf3ba2eca363717d95a53520dbca1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 24/36] fix: an object without subtype is written without the
 attribute

---
 pyodrx/signals_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index a916196..62e2df7 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -127,7 +127,8 @@ class _SignalObjectBase():
             retdict['id'] = str(self.id)
             retdict['s'] = str(self.s)
             retdict['t'] = str(self.t)
-            retdict['subtype'] = str(self.subtype)
+            if self.subtype is not None:
+                retdict['subtype'] = str(self.subtype)
             retdict['dynamic'] = enum2str(self.dynamic)
             retdict['zOffset'] = str(self.zOffset)
             if self.pitch:
-- 
2.43.0


From bd03b9a29b9da74e6ba7e663820894848bde82e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 25/36] fix: repeats of an object without height

---
 pyodrx/signals_objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index 62e2df7..4713cf1 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -455,13 +455,13 @@ class Object(_SignalObjectBase):
             infoFallback(self.id, 'tEnd')
         else:
             self._repeats[-1]['tEnd']=str(tEnd)
-        if heightStart == None and self.height != None:
-            self._repeats[-1]['heightStart']=str(self.height)
+        if heightStart == None:
+            self._repeats[-1]['heightStart']=str(self.height if self.height is not None else 0)
             infoFallback(self.id, 'heightStart')
         else:
             self._repeats[-1]['heightStart']=str(heightStart)
-        if heightEnd == None and self.height != None:
-            self._repeats[-1]['heightEnd']=str(self.height)
+        if heightEnd == None:
+            self._repeats[-1]['heightEnd']=str(self.height if self.height is not None else 0)
             infoFallback(self.id, 'heightEnd')
         else:
             self._repeats[-1]['heightEnd']=str(heightEnd)
-- 
2.43.0


From fe5a19e268b933c11a811a41a1f5bb40e7cf58a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 26/36] fix: adjusting a connecting road that lacks a
 predecessor or successor

---
 pyodrx/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index d0b43df..1ed6450 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -579,14 +579,14 @@ def _get_related_lanesection(road,connected_road):
 
     if connected_road.road_type != -1:
         # treat connecting road in junction differently 
-        if str(connected_road.predecessor.element_id) == str(road.id):
+        if connected_road.predecessor and str(connected_road.predecessor.element_id) == str(road.id):
             if connected_road.predecessor.contact_point == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = -1
             else:
                 road_lanesection_id = -1
                 sign = 1
-        elif str(connected_road.successor.element_id) == str(road.id):
+        elif connected_road.successor and str(connected_road.successor.element_id) == str(road.id):
             if connected_road.successor.contact_point == ContactPoint.start:
                 road_lanesection_id = 0
                 sign = 1
-- 
2.43.0


From bb83d2315a5a7bdd83578b0c6d0ad7afc5f26606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 27/36] fix: pretty printed files are UTF-8 in any locale

---
 pyodrx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 892fb5c..240402c 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -68,7 +68,7 @@ def printToFile(element,filename,prettyprint=True):
         rough = ET.tostring(element,'utf-8').replace(b'\n',b'').replace(b'\t',b'')
         reparsed = mini.parseString(rough)
         towrite = reparsed.toprettyxml(indent="\t")
-        with open(filename,'w') as file_handle:
+        with open(filename,'w',encoding='utf-8') as file_handle:
             file_handle.write(towrite)
     else:
         tree = ET.ElementTree(element)
-- 
2.43.0


From e76a30180236cbe52b21d5dce6d306798b83294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 28/36] fix: zeros given for a road mark are kept

---
 pyodrx/lane.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 3f28516..cec7077 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -527,24 +527,24 @@ class RoadMark():
         #TODO: there may be more line child elements per roadmark, which is currently unsupported
         self._line = None
         #check if arguments were passed that require line child element
-        if any([length, space, toffset, rule]):
+        if any([x is not None for x in [length, space, toffset, rule]]):
             #set defaults in case no values were provided
             #values for broken lines 
             if marking_type == RoadMarkType.broken: 
-                self.length = length or 3
-                self.space = space or 3
+                self.length = length if length is not None else 3
+                self.space = space if space is not None else 3
             #values for solid lines 
             elif marking_type == RoadMarkType.solid:
-                self.length = length or 3
-                self.space = space or 0
+                self.length = length if length is not None else 3
+                self.space = space if space is not None else 0
             #create empty line if arguments are missing
             else: 
-                self.length = length or 0
-                self.space = space or 0
+                self.length = length if length is not None else 0
+                self.space = space if space is not None else 0
                 print ("No defaults for arguments 'space' and 'length' for roadmark type", enum2str(marking_type), "available and no values were passed. Creating an empty roadmark.")
             #set remaining defaults
-            self.width = width or 0.2
-            self.toffset = toffset or 0
+            self.width = width if width is not None else 0.2
+            self.toffset = toffset if toffset is not None else 0
             self.rule = rule or MarkRule.none
             self._line = RoadLine(self.width,self.length,self.space,self.toffset,self.soffset,self.rule,self.color)          
 
-- 
2.43.0


From 587bec77952d1c0e924e8c6e2db4fd42ff1e6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 29/36] fix: link both ends of a connecting road that leads
 back to the road it comes from

---
 pyodrx/generators.py |  4 ++--
 pyodrx/links.py      | 26 +++++++++++++++++---------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 2c05636..f0399e1 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -356,7 +356,7 @@ def create_junction(junction_roads, id, roads):
     for jr in junction_roads:
         # handle succesor lanes
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
-        _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
+        _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id),'successor') 
 
         _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,from_offset=jr.lane_offset_suc)
         _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,from_offset=jr.lane_offset_suc)
@@ -364,7 +364,7 @@ def create_junction(junction_roads, id, roads):
 
         # handle predecessor lanes
         conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)
-        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id)) 
+        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id),'predecessor') 
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-1,sign,from_offset=jr.lane_offset_pred)
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),1,sign,from_offset=jr.lane_offset_pred)
         junc.add_connection(conne2)
diff --git a/pyodrx/links.py b/pyodrx/links.py
index 1ed6450..6b4f9ab 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -494,13 +494,16 @@ def create_lane_links(road1,road2):
     #             elif road1.predecessor and road1.predecessor.element_id == road2.id:
     #                 _create_links_roads(road2,road1)
     elif road1.road_type != -1:
-        _create_links_connecting_road(road1,road2)
+        _create_links_connecting_road(road1,road2,'predecessor')
+        _create_links_connecting_road(road1,road2,'successor')
     elif road2.road_type != -1:
 
-        _create_links_connecting_road(road2,road1)
+        _create_links_connecting_road(road2,road1,'predecessor')
+        _create_links_connecting_road(road2,road1,'successor')
     
-def _create_links_connecting_road(connecting,road):
-    """ _create_links_connecting_road will create lane links between a connecting road and a normal road
+def _create_links_connecting_road(connecting,road,link_name):
+    """ _create_links_connecting_road will create lane links between one end of a connecting road and a normal road, 
+        if it connects to that road there (a connecting road can also lead back to the road it comes from)
 
         Parameters
         ----------
@@ -508,11 +511,13 @@ def _create_links_connecting_road(connecting,road):
 
             road (Road): a that connects to the connecting road
 
+            link_name (str): the end of the connecting road, predecessor or successor
+
     """
-    linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
-    _, _, road_lanesection_id =  _get_related_lanesection(road,connecting)
+    linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road,link_name)
 
     if connecting_lanesec != None:
+        road_lanesection_id = 0 if getattr(connecting,link_name).contact_point == ContactPoint.start else -1
         # where the roads run in opposite directions, left lanes continue in right lanes
         if sign == 1:
             left_continues, right_continues = road.lanes.lanesections[road_lanesection_id].leftlanes, road.lanes.lanesections[road_lanesection_id].rightlanes
@@ -539,7 +544,7 @@ def _create_links_connecting_road(connecting,road):
                 connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].add_link(linktype,linkid)
 
 
-def _get_related_lanesection(road,connected_road):
+def _get_related_lanesection(road,connected_road,link_name=None):
     """ _get_related_lanesection takes to roads, and gives the correct lane section to use
         the type of link and if the sign of lanes should be switched
 
@@ -549,6 +554,9 @@ def _get_related_lanesection(road,connected_road):
 
             connected_road (Road): the connected road
 
+            link_name (str): the end of road to look at, predecessor or successor
+                Default: None (the one that connects to the connected road)
+
         Returns
         -------
             linktype (str): the linktype of road to connected road (successor or predecessor)
@@ -561,7 +569,7 @@ def _get_related_lanesection(road,connected_road):
     sign = None
     road_lanesection_id = None
  
-    if road.successor and str(road.successor.element_id) == str(connected_road.id):
+    if link_name != 'predecessor' and road.successor and str(road.successor.element_id) == str(connected_road.id):
         linktype = 'successor'
         if road.successor.contact_point == ContactPoint.start:
             sign = 1
@@ -569,7 +577,7 @@ def _get_related_lanesection(road,connected_road):
             sign = -1
         road_lanesection_id = -1
 
-    elif road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
+    elif link_name != 'successor' and road.predecessor and str(road.predecessor.element_id) == str(connected_road.id):
         linktype = 'predecessor'
         if road.predecessor.contact_point == ContactPoint.start:
             sign = -1
-- 
2.43.0


From c75d9d785b052430a521bfc85c21413d1ce8279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 30/36] fix: link the lanes of a road that is joined to itself

---
 pyodrx/opendrive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 2a6edaf..3bc00d9 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -7,7 +7,7 @@ from .exceptions import UndefinedRoadNetwork, RoadsAndLanesNotAdjusted
 
 import datetime as dt
 import warnings
-from itertools import combinations
+from itertools import combinations_with_replacement
 import numpy as np
 import copy as cpy
 
@@ -402,7 +402,8 @@ class OpenDrive():
         #adjust roads and their geometries 
         self.adjust_startpoints()
 
-        results = list(combinations(self.roads, 2))
+        # a road can also meet itself, as a closed track
+        results = list(combinations_with_replacement(self.roads, 2))
 
         for r in range(len(results)):
             print('analyzing roads', results[r][0], results[r][1] )
-- 
2.43.0


From 349d920d816b56bd8d3739ecc0c730112c497f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 31/36] fix: place the roads of a connecting road that was
 placed first

---
 pyodrx/opendrive.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 3bc00d9..da80c5e 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -555,6 +555,14 @@ class OpenDrive():
                             else:
                                 self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'successor')
                             count_adjusted_roads +=1
+
+                # a connecting road that was placed first: place the roads that it connects
+                elif self.roads[k].road_type != -1:
+                    for link, contact_point in [(self.roads[k].predecessor, ContactPoint.start), (self.roads[k].successor, ContactPoint.end)]:
+                        if link is not None and self.roads[str(link.element_id)].planview.adjusted is False:
+                            self.adjust_road_wrt_neighbour(link.element_id, k, contact_point,
+                                                    'predecessor' if link.contact_point == ContactPoint.start else 'successor')
+                            count_adjusted_roads +=1
             
             count_total_adjusted_roads += count_adjusted_roads
 
-- 
2.43.0


From 31f97d523094e1c68f87bb4f30f03df58b6dd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 32/36] fix: report the overridden heading as the start heading
 of the plan view

---
 pyodrx/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 6381ef1..1afc4c6 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -251,6 +251,8 @@ class PlanView():
             self.x_start = self.present_x
             self.y_start = self.present_y
             self.h_start = self.present_h
+            if len(self._overridden_headings) > 0:
+                self.h_start = self._overridden_headings[0]
 
             for i in range(len(self._raw_geometries)):
                 if len(self._overridden_headings) > 0:
-- 
2.43.0


From b03e1e7399387e77f7a62ac432ae5231163a761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 33/36] fix: keep the overridden headings of a road that is
 placed from its end

---
 pyodrx/geometry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 1afc4c6..2f6c82e 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -277,6 +277,12 @@ class PlanView():
             lengths = []
             for i in range(len(self._raw_geometries)-1, -1, -1):
 
+                if len(self._overridden_headings) > 0:
+                    # the heading that leads back along a geometry that starts with the overridden one
+                    _, _, end_heading, _ = self._raw_geometries[i].get_end_data(0, 0, self._overridden_headings[i])
+                    self.present_h = end_heading + np.pi
+                    if i == len(self._raw_geometries)-1:
+                        self.h_end = end_heading
                 newgeom = _Geometry(self.present_s,self.present_x,self.present_y,self.present_h,self._raw_geometries[i])
                 self.present_x,self.present_y,self.present_h, partial_length = newgeom.get_start_data()
                 lengths.append(partial_length)
-- 
2.43.0


From e05cc5fce6c9e54381f7ef52ca966ac22139e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:19 +0000
Subject: [PATCH 34/36] fix: a link to a road that is not added (yet) does not
 stop the others from being adjusted

---
 pyodrx/opendrive.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index da80c5e..bdc0bae 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -469,6 +469,21 @@ class OpenDrive():
             main_road.planview.adjust_geometries(True)
 
 
+    def _is_adjusted(self, link):
+        """ tells if the road that a link leads to is adjusted
+
+            Parameters
+            ----------
+                link (_Link): the link to a road
+
+            Return
+            ------
+                adjusted (bool): None if the road is not added (yet)
+
+        """
+        road = self.roads.get(str(link.element_id))
+        return None if road is None else road.planview.adjusted
+
     def adjust_startpoints(self): 
         """ Adjust starting position of all geoemtries of all roads
 
@@ -517,7 +532,7 @@ class OpenDrive():
                     # check if it has a normal (road) predecessor 
                     if self.roads[k].predecessor is not None and \
                         self.roads[k].predecessor.element_type is not ElementType.junction and \
-                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True: 
+                        self._is_adjusted(self.roads[k].predecessor) is True: 
 
                         print('  Adjusting {}road {} to predecessor {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].predecessor.element_id))
@@ -525,7 +540,7 @@ class OpenDrive():
                                                     self.roads[k].predecessor.contact_point, 'predecessor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self.roads[k].successor is not None and self._is_adjusted(self.roads[k].successor) is False:
                             succ_id = self.roads[k].successor.element_id
                             print('    Adjusting successor connecting road {} in junction {} to road {} '.\
                                 format(succ_id, self.roads[k].road_type, self.roads[k].id))
@@ -538,7 +553,7 @@ class OpenDrive():
                     # check if geometry has a normal (road) successor 
                     elif self.roads[k].successor is not None and \
                         self.roads[k].successor.element_type is not ElementType.junction and \
-                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True: 
+                        self._is_adjusted(self.roads[k].successor) is True: 
 
                         print('  Adjusting {}successor {} to road {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].successor.element_id))
@@ -546,7 +561,7 @@ class OpenDrive():
                                                     self.roads[k].successor.contact_point, 'successor')
                         count_adjusted_roads +=1
 
-                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is False:
+                        if self.roads[k].road_type != -1 and self.roads[k].predecessor is not None and self._is_adjusted(self.roads[k].predecessor) is False:
                             pred_id = self.roads[k].predecessor.element_id
                             print('    Adjusting predecessor connecting road {} in junction {} to road {} '.\
                                 format(pred_id, self.roads[k].road_type, self.roads[k].id))
@@ -559,7 +574,7 @@ class OpenDrive():
                 # a connecting road that was placed first: place the roads that it connects
                 elif self.roads[k].road_type != -1:
                     for link, contact_point in [(self.roads[k].predecessor, ContactPoint.start), (self.roads[k].successor, ContactPoint.end)]:
-                        if link is not None and self.roads[str(link.element_id)].planview.adjusted is False:
+                        if link is not None and self._is_adjusted(link) is False:
                             self.adjust_road_wrt_neighbour(link.element_id, k, contact_point,
                                                     'predecessor' if link.contact_point == ContactPoint.start else 'successor')
                             count_adjusted_roads +=1
-- 
2.43.0


From 3757d2bf8e1b1fc9d62a23553f2861d983dc1d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:17 +0000
Subject: [PATCH 35/36] fix: the viewer can be in a folder whose name has
 blanks or other characters of the shell

---
 pyodrx/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 240402c..b9ee215 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -3,6 +3,7 @@ import xml.dom.minidom as mini
 
 
 import os
+from shlex import quote
 
 
 def run_road(opendrive,esminipath = 'esmini',density=15):
@@ -20,7 +21,7 @@ def run_road(opendrive,esminipath = 'esmini',density=15):
     opendrive.write_xml(os.path.join(_scenariopath,'pythonroad.xodr'),True)
     
     if os.name == 'posix':
-        os.system(os.path.join('.', esminipath, 'bin','odrviewer') + ' --odr ' + os.path.join(esminipath,'resources','xodr','pythonroad.xodr') + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density ' + str(density) )
+        os.system(quote(os.path.join('.', esminipath, 'bin','odrviewer')) + ' --odr ' + quote(os.path.join(esminipath,'resources','xodr','pythonroad.xodr')) + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density ' + str(density) )
     elif os.name == 'nt':
         os.system(os.path.join(esminipath,'bin','odrviewer.exe') + ' --odr ' + os.path.join(esminipath,'resources','xodr','pythonroad.xodr') + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density '  + str(density) )
 
-- 
2.43.0


From 738f99dbf057277b6f2717bb2166b0e51a6e0b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:23 +0000
Subject: [PATCH 36/36] fix: moving a plan view replaces its geometries instead
 of writing them twice

---
 pyodrx/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 2f6c82e..229597b 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -246,7 +246,10 @@ class PlanView():
             from_end ([optional]bool): states if (self.present_x, self.present_y, self.present_h) are being interpreted as starting point or ending point of the geometry
 
         """
-        
+        # a plan view that was adjusted before is moved
+        self._adjusted_geometries = []
+        self.present_s = 0
+
         if from_end== False:
             self.x_start = self.present_x
             self.y_start = self.present_y
-- 
2.43.0

