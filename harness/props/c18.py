"""Objects along the roadside."""
import math

from hypothesis import strategies as st

import curves
import nets
import shapes
from base import Info, Prop
from client import E, Prog
from xmlobs import attr, canon, first_difference, num, one, opt, parse, require

W = shapes.pick(3, 2.5, 4, floats=st.floats(0.1, 10))


@st.composite
def section(draw):
    return {"left": draw(shapes.few(W, 3, 10, 0)), "right": draw(shapes.few(W, 3, 10, 0))}


class C18(Prop):
    quick, thorough = 3500, 150000
    rule = ("A road, placed from its start or its end, of 1-2 geometries and 1-12 lane sections with different lane widths on the two sides; 1-8 calls with "
            "new or the same prototypes on either or both sides, with s and t offsets. Non-trivial: sides differ in width, or "
            "several sections, or several calls.")
    assumptions = ["Lane widths are constant (the code says that others are not supported); the s offset is shorter than the last "
                   "lane section."]
    must_cover = ("left", "right", "both", "several sections", "same prototype again", "not adjusted", "placed from its end", "no lanes on that side")

    def strategy(self):
        call = st.fixed_dictionaries({
            "proto": st.integers(0, 2), "distance": shapes.pick(0, 10, 50, floats=st.floats(0, 100)),
            "s": st.one_of(st.none(), st.just(0), st.floats(0, 0.95)), "t": st.one_of(st.none(), shapes.pick(0, 0.85, -0.5, floats=st.floats(-5, 20))),
            "side": st.sampled_from([None, "both", "left", "right"])})
        proto = st.fixed_dictionaries({"type": st.sampled_from(["pole", "railing", "tree"]), "s": st.sampled_from([0, 5]),
                                       "t": st.sampled_from([0, -7]), "id": st.one_of(st.none(), st.sampled_from(["p", "q", 3])),
                                       "more": st.fixed_dictionaries({}, optional={
                                           "width": st.sampled_from([0, 1.5]), "length": st.sampled_from([0, 2.5]), "radius": st.sampled_from([0, 0.5]), "validLength": st.sampled_from([0, 3]),
                                           "zOffset": st.sampled_from([0, 0.25]), "pitch": st.sampled_from([0, 0.125]), "roll": st.sampled_from([0, -0.125]),
                                           "subtype": st.sampled_from(["", "s t"])}),
                                       "own": st.integers(0, 2).map(lambda n: n == 0), "hdg": st.sampled_from([None, 0.3])})
        return st.fixed_dictionaries({"geoms": nets.geoms(), "sections": shapes.few(section(), 4, 12),
                                      "pose": st.one_of(st.none(), shapes.POSE), "protos": st.lists(proto, min_size=3, max_size=3),
                                      "calls": shapes.few(call, 3, 8), "early": st.integers(0, 3).map(lambda n: n == 0),
                                      "back": st.integers(0, 3).map(lambda n: n == 0)})

    def check(self, c, sut):
        p = Prog()
        labels = set()
        L = sum(shapes.length(g) for g in c["geoms"])
        n = len(c["sections"])
        secs = [{"s": L * k / n if k else 0, "left": s["left"], "right": s["right"]} for k, s in enumerate(c["sections"])]
        road = nets.new_road(p, {"id": 1, "junction": -1, "geoms": c["geoms"], "pose": None if c.get("back") else c["pose"], "sections": secs})
        odr = p.new("OpenDrive", "roadside")
        odr.call("add_road", road)
        if c.get("back"):
            # the road is placed from its end
            other = nets.new_road(p, {"id": 2, "junction": -1, "geoms": [{"kind": "line", "length": 30}], "pose": c["pose"] or (0, 0, 0),
                                      "sections": [{"s": 0, "left": secs[-1]["left"], "right": secs[-1]["right"]}]})
            road.call("add_successor", E("ElementType.road"), 2, E("ContactPoint.start"))
            other.call("add_predecessor", E("ElementType.road"), 1, E("ContactPoint.end"))
            odr.call("add_road", other)
            labels.add("placed from its end")
        protos = []
        for q in c["protos"]:
            kw = {k: q[k] for k in ("id", "hdg") if q[k] is not None}
            kw.update(q.get("more") or {})
            o = p.new("Object", q["s"], q["t"], E("ObjectType." + q["type"]), name="proto", height=2, **kw)
            if q["own"]:
                o.call("repeat", 7, 1, sStart=1)
            protos.append(o)
        early = None
        if c["early"]:
            early = road.try_call("add_object_roadside", protos[0], 10)
            before = road.xml()
        odr.call("adjust_roads_and_lanes")
        was = [o.xml() for o in protos]
        for call in c["calls"]:
            kw = {}
            if call["s"] is not None:
                kw["sOffset"] = call["s"] * L / n
            if call["t"] is not None:
                kw["tOffset"] = call["t"]
            if call["side"] is not None:
                kw["side"] = E("RoadSide." + call["side"])
            road.call("add_object_roadside", protos[call["proto"]], call["distance"], **kw)
        xs = [o.xml() for o in protos]
        x = odr.xml()
        res = sut.run(p)
        if early is not None:
            e = res.exc(early)
            require(e is not None and "RoadsAndLanesNotAdjusted" in e, "objects on a road that is not placed: %s was raised", e and e[0])
            require(opt(parse(res[before]), "objects") is None, "a rejected call left objects on the road")
            labels.add("not adjusted")
        for a, b in zip(was, xs):
            d = first_difference(canon(parse(res[a])), canon(parse(res[b])))
            require(d is None, "a prototype was changed: %s", d)
        first = [parse(res[a]) for a in was]
        el = nets.roads_by_id(parse(res[x]))["1"]
        got = [e for g in el.findall("objects") for e in g]
        total = sum(g.length for g in curves.planview(el))
        want = []
        for call in c["calls"]:
            q = c["protos"][call["proto"]]
            so = (call["s"] or 0) * L / n
            side = call["side"] or "both"
            labels.add(side)
            for s in secs:
                for name, sign in (("left", 1), ("right", -1)):
                    if side in (name, "both"):
                        want.append({"q": q, "proto": first[call["proto"]], "s": s["s"] + so, "t": sign * (sum(s[name]) + (call["t"] or 0)), "hdg": math.pi if sign > 0 else 0,
                                     "distance": call["distance"]})
                        if not s[name]:
                            labels.add("no lanes on that side")
        require(len(got) == len(want), "%d objects are written, not one for each section and side (%d)", len(got), len(want))
        # per call, section by section; within a section the order of the sides is free
        tol = 1e-9 * max(1.0, total)

        def rest(e):
            """what the road does not decide"""
            return {k: v for k, v in e.attrib.items() if k not in ("id", "s", "t", "hdg")}, [dict(r.attrib) for r in e]

        def fits(e, w):
            last = e.findall("repeat")[-1:] or None
            require(last is not None, "a roadside object is not repeated")
            r = last[0]
            mine, his = rest(e), rest(w["proto"])
            if mine[0] != his[0] or mine[1][:-1] != his[1]:
                return False
            return (e.get("type") == w["q"]["type"] and abs(num(e, "s") - w["s"]) <= tol and abs(num(e, "t") - w["t"]) <= 1e-9 * (1 + abs(w["t"])) and
                    curves.angle_diff(num(e, "hdg"), w["hdg"]) < 1e-9 and abs(num(r, "s") - w["s"]) <= tol and
                    all(abs(num(r, k) - w["t"]) <= 1e-9 * (1 + abs(w["t"])) for k in ("tStart", "tEnd")) and
                    abs(num(r, "s") + num(r, "length") - total) <= max(tol, 1e-6) and num(r, "distance") == w["distance"] and
                    num(r, "heightStart") == 2 and num(r, "heightEnd") == 2 and
                    len(e.findall("repeat")) == (2 if w["q"]["own"] else 1) and e.get("name") == "proto" and num(e, "height") == 2)

        left = list(got)
        for w in want:
            hit = [e for e in left if fits(e, w)]
            require(hit, "no object like %s at s=%r t=%r heading %r repeated every %r up to the road's end (%r); there are %s", rest(w["proto"]), w["s"], w["t"],
                    w["hdg"], w["distance"], total, [dict(e.attrib, repeats=[dict(r.attrib) for r in e]) for e in left])
            left.remove(hit[0])
        if n > 1:
            labels.add("several sections")
        if len({call["proto"] for call in c["calls"]}) < len(c["calls"]):
            labels.add("same prototype again")
        ids = [attr(e, "id") for e in got]
        require(len(set(ids)) == len(ids), "roadside objects share ids: %s", ids)
        return Info(n > 1 or len(c["calls"]) > 1 or any(sum(s["left"]) != sum(s["right"]) for s in secs), sorted(labels))


PROP = C18()
