"""Every placed document is complete and consistent."""
import re

from hypothesis import strategies as st

import crossings
import curves
import lanes
import nets
import worlds
from base import Info, Prop
from client import Prog
from props import c05, c12, c13
from xmlobs import attr, num, one, parse, require, tonum

# element: (attributes that it must have, attributes that it may have, elements that it may contain)
N, T, I = "number", "text", "integer"
GRAMMAR = {
    "OpenDRIVE": ({}, {}, "header road junction"),
    "header": ({"revMajor": I, "revMinor": I, "name": T, "date": T, "north": N, "south": N, "east": N, "west": N}, {}, ""),
    "road": ({"id": T, "length": N, "junction": T}, {"name": T, "rule": {"RHT", "LHT"}}, "link planView lanes objects signals"),
    "road/link": ({}, {}, "predecessor successor neighbor"),
    "road/link/predecessor": ({"elementType": {"road", "junction"}, "elementId": T}, {"contactPoint": {"start", "end"}}, ""),
    "road/link/successor": ({"elementType": {"road", "junction"}, "elementId": T}, {"contactPoint": {"start", "end"}}, ""),
    "road/link/neighbor": ({"elementType": {"road"}, "elementId": T, "direction": {"same", "opposite"}}, {}, ""),
    "road/planView": ({}, {}, "geometry"),
    "geometry": ({"s": N, "x": N, "y": N, "hdg": N, "length": N}, {}, "line arc spiral paramPoly3"),
    "geometry/line": ({}, {}, ""),
    "geometry/arc": ({"curvature": N}, {}, ""),
    "geometry/spiral": ({"curvStart": N, "curvEnd": N}, {}, ""),
    "geometry/paramPoly3": (dict.fromkeys("aU bU cU dU aV bV cV dV".split(), N), {"pRange": {"normalized", "arcLength"}}, ""),
    "road/lanes": ({}, {}, "laneSection"),
    "laneSection": ({"s": N}, {}, "left center right"),
    "laneSection/left": ({}, {}, "lane"), "laneSection/center": ({}, {}, "lane"), "laneSection/right": ({}, {}, "lane"),
    "lane": ({"id": I, "type": T, "level": {"true", "false"}}, {}, "link width roadMark"),
    "lane/link": ({}, {}, "predecessor successor"),
    "lane/link/predecessor": ({"id": I}, {}, ""), "lane/link/successor": ({"id": I}, {}, ""),
    "lane/width": (dict.fromkeys(["sOffset"] + list("abcd"), N), {}, ""),
    "lane/roadMark": ({"sOffset": N, "type": T, "weight": T, "color": T}, {"height": N, "width": N, "laneChange": T}, "type"),
    "roadMark/type": ({"name": T, "width": N}, {}, "line"),
    "type/line": (dict.fromkeys("length space tOffset sOffset".split(), N), {"width": N, "rule": {"no passing", "caution", "none"}}, ""),
    "objects": ({}, {}, "object"), "signals": ({}, {}, "signal"),
    "object": ({"id": T, "s": N, "t": N, "zOffset": N, "hdg": N, "orientation": {"+", "-", "none"}, "type": T},
               {"name": T, "subtype": T, "dynamic": {"yes", "no"}, "height": N, "width": N, "length": N, "radius": N, "validLength": N, "pitch": N, "roll": N}, "repeat"),
    "object/repeat": (dict.fromkeys("s length distance tStart tEnd heightStart heightEnd zOffsetStart zOffsetEnd".split(), N), {}, ""),
    "signal": ({"id": T, "s": N, "t": N, "zOffset": N, "orientation": {"+", "-", "none"}, "type": T, "subtype": T, "dynamic": {"yes", "no"}, "country": T},
               {"name": T, "hOffset": N, "value": N, "unit": T, "height": N, "width": N, "pitch": N, "roll": N}, ""),
    "junction": ({"id": T, "name": T}, {"type": T}, "connection"),
    "connection": ({"id": T, "incomingRoad": T, "connectingRoad": T, "contactPoint": {"start", "end"}}, {}, "laneLink"),
    "connection/laneLink": ({"from": I, "to": I}, {}, ""),
}


NONSENSE = re.compile(r"^None$|^nan$|^\(|^\[|<\w+\.\w+: |object at 0x")


def grammar(el, path=()):
    path = path + (el.tag,)
    for n in (3, 2, 1):
        rule = GRAMMAR.get("/".join(path[-n:]))
        if rule and len(path) >= n:
            break
    else:
        rule = None
    where = "/".join(path)
    require(rule is not None, "%s does not belong there", where)
    must, may, kids = rule
    for k in must:
        attr(el, k)
    for k, v in el.attrib.items():
        # more attributes and elements than these may be written, but not nonsense
        kind = must.get(k, may.get(k, T))
        if kind == N:
            tonum(v, "%s %s" % (where, k))
        elif kind == I:
            require(v.lstrip("-").isdigit(), "%s %s is %r", where, k, v)
        elif isinstance(kind, set):
            require(v in kind, "%s %s is %r", where, k, v)
        if k != "name":
            require(not NONSENSE.search(v), "%s %s is %r", where, k, v)
    for c in el:
        require(c.tag in kids.split(), "%s contains <%s>", where, c.tag)
        grammar(c, path)


def ids(els, what):
    out = {}
    for e in els:
        i = attr(e, "id")
        require(i not in out, "%s id %s is given twice", what, i)
        out[i] = e
    return out


def consistent(doc):
    """numbers of followed references"""
    grammar(doc)
    require([e.tag for e in doc][:1] == ["header"] and len(doc.findall("header")) == 1, "the document does not start with its header")
    roads = ids(doc.findall("road"), "road")
    junctions = ids(doc.findall("junction"), "junction")
    for what in ("object", "signal"):
        ids(doc.iter(what), what)
    secs = {i: lanes.sections(e) for i, e in roads.items()}
    links = {}
    followed = 0
    for i, e in roads.items():
        links[i] = {}
        for l in one(e, "link"):
            to, kind = attr(l, "elementId"), attr(l, "elementType")
            if l.tag != "neighbor":
                require(l.tag not in links[i], "road %s has two %ss", i, l.tag)
                links[i][l.tag] = (kind, to, l.get("contactPoint"))
                require((l.get("contactPoint") is None) == (kind == "junction"), "road %s: contact point %r of a %s", i, l.get("contactPoint"), kind)
            if kind == "road":
                require(to in roads, "road %s is linked to road %s, which there is not", i, to)
            elif junctions:
                require(to in junctions, "road %s is linked to junction %s, which there is not", i, to)
            followed += 1
        if attr(e, "junction") != "-1" and junctions:
            require(attr(e, "junction") in junctions, "road %s belongs to junction %s, which there is not", i, attr(e, "junction"))
        gs = curves.planview(e)
        require(gs, "road %s has no geometry", i)
        s = 0.0
        for g in gs:
            require(g.length > 0 and abs(g.s - s) <= 1e-9 * max(1, s), "road %s: geometries at %s with lengths %s", i, [g.s for g in gs], [g.length for g in gs])
            s += g.length
        L = num(e, "length")
        require(abs(L - s) <= 1e-9 * max(1, s), "road %s is %r long, its geometries %r", i, L, s)
        ss = [q.s for q in secs[i]]
        require(ss and ss[0] == 0 and all(a < b for a, b in zip(ss, ss[1:])) and ss[-1] < L, "road %s has lane sections at %s", i, ss)
        for q in secs[i]:
            require(sorted(q.lanes) == [k for k in range(-len(q.right), len(q.left) + 1) if k], "road %s has lanes %s", i, sorted(q.lanes))
    for i, qs in secs.items():
        for n, q in enumerate(qs):
            require(q.center.id == 0, "road %s: the center lane is %d", i, q.center.id)
            for lane in q.lanes.values():
                for kind, there in (("predecessor", n - 1), ("successor", n + 1)):
                    to = lane.links[kind]
                    if to is None:
                        continue
                    followed += 1
                    if 0 <= there < len(qs):
                        other, where = qs[there], "section %d of its road" % there
                    else:
                        l = links[i].get(kind)
                        require(l is not None and l[0] == "road", "road %s: lane %d has a %s, the road has not", i, lane.id, kind)
                        other, where = lanes.at_end(secs[l[1]], l[2]), "road %s" % l[1]
                    require(to in other.lanes, "road %s: the %s of lane %d is lane %d of %s, which there is not", i, kind, lane.id, to, where)
    for j, e in junctions.items():
        ids(e.findall("connection"), "connection")
        for con in e.findall("connection"):
            a, b = attr(con, "incomingRoad"), attr(con, "connectingRoad")
            require(a in roads and b in roads, "junction %s connects roads %s and %s, which are not both there", j, a, b)
            require(attr(roads[b], "junction") == j, "junction %s has a connection with road %s of junction %s", j, b, attr(roads[b], "junction"))
            l = links[b].get("predecessor" if attr(con, "contactPoint") == "start" else "successor")
            require(l is not None and l[1] == a, "junction %s: road %s meets %s with its %s, it is linked to %s", j, b, a, attr(con, "contactPoint"), l)
            at = lanes.at_end(secs[a], l[2]), lanes.at_end(secs[b], attr(con, "contactPoint"))
            for ll in con.findall("laneLink"):
                for k, q, road in (("from", at[0], a), ("to", at[1], b)):
                    require(int(attr(ll, k)) in q.lanes, "junction %s: a lane link %s lane %s of road %s, which there is not", j, k, attr(ll, k), road)
                followed += 1
    return followed


class C25(Prop):
    quick, thorough = 2200, 80000
    rule = ("Whole documents - networks placed through joints and junctions, names, lane types, lane linkers, road marks, objects, "
            "signals, roadside objects, neighbours, junction tables made by the library - and junctions of the "
            "generators; rings, highways with lane offsets and junctions by hand with the tables made before or after placing. "
            "Non-trivial: two or more references were followed.")
    assumptions = ["Additional attributes are allowed; connecting roads in hand-made tables are not part of this check (C22 has them)."]
    must_cover = ("network", "generated junction", "junction table", "several sections", "roadside", "ring", "highway", "crossing", "loop", "turn")

    def strategy(self):
        w = worlds.world().map(lambda w: dict(w, tables="made" if w["tables"] == "hand" else w["tables"]))
        other = st.one_of(c05.ring().map(lambda r: {"ring": r}), c13.highway().map(lambda h: {"highway": h}),
                          crossings.crossing().map(lambda q: {"crossing": q}))
        other = st.tuples(other, st.booleans()).map(lambda t: dict(t[0], early=t[1]))
        return st.one_of(w, w, w, w.map(lambda w: dict(w, tables="made")), other, other, c12.junction().map(lambda j: {"junction": j}))

    def check(self, c, sut):
        p = Prog()
        labels = set()
        if "junction" in c:
            j = c["junction"]
            n, k = j["lanes"], len(j["angles"])
            roads = [p.new("create_straight_road", i, length=r["length"], n_lanes=n, lane_offset=j["width"]) for i, r in enumerate(j["roads"])]
            jid = 1 if j["junction"] is None else j["junction"]
            kw = {} if j["start"] is None else {"startnum": j["start"]}
            made = p.new("create_junction_roads", roads, j["angles"], j["r"], junction=jid, **kw)
            jroads = [made.item(q) for q in range(k * (k - 1) // 2)]
            odr = p.new("OpenDrive", "junction")
            odr.call("add_junction", p.new("create_junction", jroads, jid, roads))
            for r in roads + jroads:
                odr.call("add_road", r)
            odr.call("adjust_roads_and_lanes")
            labels.add("generated junction")
        elif "early" in c:
            odr = self.other(p, c, labels)
        else:
            odr = worlds.build(p, c).odr
            labels.add("network")
            if c["roadside"]:
                labels.add("roadside")
        x = odr.xml()
        doc = parse(sut.run(p)[x])
        followed = consistent(doc)
        if doc.findall("junction"):
            labels.add("junction table")
        if any(len(r.findall("lanes/laneSection")) > 1 for r in doc.findall("road")):
            labels.add("several sections")
        return Info(followed > 1, sorted(labels))

    def other(self, p, c, labels):
        """a ring, a highway with lane offsets, or a junction by hand; its tables are made before or after placing"""
        tables = {}  # junction id -> connecting roads, roads that meet it
        if "crossing" in c:
            q = c["crossing"]
            normal, conn, _ = crossings.build(p, q, crossings.decode(q))
            refs = normal + conn
            tables[q["junction"]] = (conn, normal)
            labels.update(["crossing"] + [l for l in crossings.labels(q, crossings.decode(q)) if l in ("loop", "turn")])
        else:
            net = c05.ring_net(c["ring"]) if "ring" in c else c13.highway_net(c["highway"])
            refs = [nets.new_road(p, r) for r in net.roads]
            nets.link(p, net, refs)
            for k, r in enumerate(net.roads):
                if r["junction"] != -1:
                    tables.setdefault(r["junction"], ([], refs))[0].append(refs[k])
            labels.add("ring" if "ring" in c else "highway")
            q = c.get("ring") or c["highway"]
        odr = p.new("OpenDrive", "document")
        for i in nets.permutation(len(refs), q["order"]):
            odr.call("add_road", refs[i])
        if not c["early"]:
            odr.call("adjust_roads_and_lanes")
        for jid, (conn, roads) in tables.items():
            odr.call("add_junction", p.new("create_junction", conn, jid, roads))
        if c["early"]:
            odr.call("adjust_roads_and_lanes")
        return odr


PROP = C25()
