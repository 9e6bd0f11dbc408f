"""The reference line of every placed road is one continuous curve."""
import math

from hypothesis import strategies as st

import curves
import nets
import shapes
from base import Info, Prop
from client import E, Prog
from xmlobs import num, parse, require, tonum


def same_shape(g, w):
    """the written geometry w is the added geometry g"""
    kind = {"poly": "paramPoly3"}.get(g["kind"], g["kind"])
    require(w.kind == kind, "a %s was added where a %s is written", kind, w.kind)
    want = {"line": (), "arc": (g.get("curvature"),), "spiral": (g.get("curvstart"), g.get("curvend")),
            "poly": tuple(g.get("c", ()))}[g["kind"]]
    require(tuple(want) == w.par, "a %s with %s was added where one with %s is written", kind, want, w.par)
    L = shapes.length(g)
    require(abs(w.length - L) <= 1e-6 + 1e-8 * L, "a %s of length %r is written with length %r", kind, L, w.length)


class C01(Prop):
    quick, thorough = 3600, 150000
    rule = ("One road of 1-14 generated geometries (Line, Arc, Spiral, ParamPoly3 in both ranges) is placed from an "
            "explicit start, as first road, by hand (set_start_point and adjust_geometries, from either end, also after it was placed elsewhere), or by its "
            "start or its end against the start or end of another road; sometimes with overridden headings, or with one "
            "geometry object used twice, or by both roads. Non-trivial: at least two geometries of which one is not a line.")
    assumptions = ["The oracle integrates each written geometry with the OpenDRIVE formulas (16-node Gauss-Legendre); "
                   "positions may differ by 5e-6 + 1e-9 of the size, headings by 1e-7 and whole turns."]
    must_cover = ("placed from its end", "placed from its start", "explicit start", "first road", "overridden headings",
                  "placed by hand", "placed by hand from its end", "moved by hand", "asked before", "shared geometry",
                  "overridden headings from its end")

    def strategy(self):
        @st.composite
        def case(draw):
            how = draw(st.sampled_from(["explicit start", "first road", "placed from its start", "placed from its end",
                                        "placed from its end", "placed by hand", "placed by hand from its end"]))
            gs = draw(shapes.few(shapes.geom(), 6, 14))
            c = {"how": how, "geoms": gs}
            if len(gs) > 1 and draw(st.integers(0, 2)) == 0:  # one object in several places
                a, b = draw(st.integers(0, len(gs) - 1)), draw(st.integers(0, len(gs) - 1))
                if a != b:
                    gs[b] = gs[a]
                    c["shared"] = [a, b]
            if how == "explicit start" or "by hand" in how:
                c["pose"] = draw(shapes.POSE)
                if "by hand" in how and draw(st.integers(0, 3)) == 0:
                    c["given"] = draw(st.integers(0, 2))  # what is left out of set_start_point is 0
                if "by hand" in how and draw(st.integers(0, 2)) == 0:  # it was placed elsewhere before
                    c["before"] = draw(st.lists(st.tuples(shapes.POSE, st.booleans()).map(list), min_size=1, max_size=2))
                    c["moved in place"] = draw(st.booleans())  # moved when it is in the document, and that adjusted
            if how in ("placed from its start", "placed from its end"):
                if draw(st.integers(0, 2)) == 0:
                    c["lend"] = draw(st.integers(0, 13))  # the other road uses one of the same objects
                c["pose"] = draw(shapes.POSE)
                c["contact"] = draw(st.sampled_from(nets.ENDS))
                c["other"] = draw(nets.geoms())
            c["asked"] = draw(st.integers(0, 2)) == 0  # where it is was asked before as well
            if draw(st.integers(0, 4)) == 0:
                c["headings"] = [draw(shapes.HEADING) for _ in gs]
            return c
        return case()

    def check(self, c, sut):
        given = c.get("given", 3)
        if given < 3:
            c = dict(c, pose=c["pose"][:given] + [0] * (3 - given))
        p = Prog()
        shared = {}
        lent = c["geoms"][c["lend"] % len(c["geoms"])] if "lend" in c and "shared" not in c else None

        def road(i, gs, pose, headings=None):
            pv = p.new("PlanView", *pose) if pose else p.new("PlanView")
            for k, g in enumerate(gs):
                if i == 1 and k in c.get("shared", []):
                    o = shared.get("own") or shapes.build(p, g)
                    shared["own"] = o
                elif g is lent:
                    o = shared.get("lent") or shapes.build(p, g)
                    shared["lent"] = o
                else:
                    o = shapes.build(p, g)
                if headings:
                    pv.call("add_geometry", o, heading=headings[k])
                else:
                    pv.call("add_geometry", o)
            lanes = p.new("Lanes")
            lanes.call("add_lanesection", p.new("LaneSection", 0, p.new("Lane")))
            return p.new("Road", i, pv, lanes), pv

        def asked(r, pv):
            if c.get("asked"):
                for who, what in ((pv, "get_start_point"), (pv, "get_end_point"), (r, "get_end_point"), (pv, "get_total_length")):
                    who.ask(what)
                for who in (r, pv):
                    who.try_call("get_element")

        odr = p.new("OpenDrive", "road")
        how = c["how"]
        if how in ("explicit start", "first road"):
            r, pv = road(1, c["geoms"], c.get("pose"), c.get("headings"))
            odr.call("add_road", r)
        elif "by hand" in how:
            r, pv = road(1, c["geoms"], None, c.get("headings"))
            if c.get("moved in place"):
                odr.call("add_road", r)
                odr.call("adjust_roads_and_lanes")
            asked(r, pv)
            for pose, backwards in c.get("before", []):
                pv.call("set_start_point", *pose)
                pv.call("adjust_geometries", backwards)
                asked(r, pv)
            pv.call("set_start_point", *c["pose"][:given])
            if "end" in how:
                pv.call("adjust_geometries", True)
            else:
                pv.call("adjust_geometries")
            if not c.get("moved in place"):
                odr.call("add_road", r)
        else:
            o, _ = road(2, c["other"] + ([lent] if lent else []), c["pose"])
            r, pv = road(1, c["geoms"], None, c.get("headings"))
            mine = "end" if how.endswith("end") else "start"
            its = c["contact"]
            for who, end, other, oend in ((r, mine, 2, its), (o, its, 1, mine)):
                who.call("add_successor" if end == "end" else "add_predecessor", E("ElementType.road"), other,
                         E("ContactPoint." + oend))
            odr.call("add_road", o)
            odr.call("add_road", r)
        asked(r, pv)
        odr.call("adjust_roads_and_lanes")
        doc = odr.xml()
        start, end, rend = pv.ask("get_start_point"), pv.ask("get_end_point"), r.ask("get_end_point")
        total = pv.ask("get_total_length")
        res = sut.run(p)
        el = nets.roads_by_id(parse(res[doc])).get("1")
        require(el is not None, "road 1 is not in the document")
        pl = nets.Placed(el)
        gs = pl.geoms
        require(len(gs) == len(c["geoms"]), "%d geometries were added, %d are written", len(c["geoms"]), len(gs))
        s = 0.0
        for k, (g, w) in enumerate(zip(c["geoms"], gs)):
            same_shape(g, w)
            require(abs(w.s - s) <= 1e-9 * max(1.0, s), "geometry %d starts at s=%r, not where the lengths before it "
                    "add up to (%r)", k, w.s, s)
            s += w.length
        L = num(el, "length")
        require(abs(L - s) <= 1e-9 * max(1.0, s), "road length %r, its geometries add up to %r", L, s)
        require(abs(tonum(res[total], "get_total_length") - s) <= 1e-9 * max(1.0, s), "get_total_length %r, the geometries add up to %r",
                res[total], s)
        if how in ("explicit start", "placed by hand"):
            curves.same_pose(c["pose"][:2] + [c["headings"][0] if c.get("headings") else c["pose"][2]], pl.start, pl.scale, "the given start and the first geometry")
        if how == "placed by hand from its end":
            x, y, h = c["pose"]
            curves.same_pose((x, y, pl.end[2] if c.get("headings") else h + math.pi), pl.end, pl.scale, "the given end and the end of the last geometry")
        heads = c.get("headings")
        for k in range(1, len(gs)):
            a, b = gs[k - 1].end(), gs[k]
            if heads:
                curves.same_pose((a[0], a[1], heads[k]), (b.x, b.y, b.h), pl.scale,
                                 "the end of geometry %d and the start of the next" % (k - 1))
            else:
                curves.same_pose(a, (b.x, b.y, b.h), pl.scale,
                                 "the end of geometry %d and the start of the next" % (k - 1))
        if heads:
            require(curves.angle_diff(gs[0].h, heads[0]) < 1e-6, "the first heading is %r, overridden with %r", gs[0].h, heads[0])
        curves.same_pose(pl.start, curves.pose(res[start], "get_start_point"), pl.scale, "the first geometry and get_start_point")
        curves.same_pose(pl.end, curves.pose(res[end], "get_end_point"), pl.scale, "the end of the last geometry and get_end_point")
        curves.same_pose(pl.end, curves.pose(res[rend], "Road.get_end_point"), pl.scale, "the end of the last geometry and Road.get_end_point")
        labels = [how, "%d geometries" % len(gs)] + sorted({shapes.label(g) for g in c["geoms"]})
        if heads:
            labels.append("overridden headings")
            if "from its end" in how:
                labels.append("overridden headings from its end")
        if c.get("asked"):
            labels.append("asked before")
        if "before" in c:
            labels.append("moved by hand")
        if "shared" in c or lent:
            labels.append("shared geometry")
        return Info(len(gs) > 1 and any(g["kind"] != "line" for g in c["geoms"]), labels)


PROP = C01()
