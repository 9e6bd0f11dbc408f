"""Generated roads."""
import math

from hypothesis import strategies as st

import curves
import lanes
import nets
import shapes
from base import Info, Prop
from client import E, Prog
from xmlobs import attr, num, one, parse, require

WIDTH = shapes.pick(3, 4, 2.5, floats=st.floats(0.1, 8))
JUNCTION = st.sampled_from([None, -1, 1, 0, 17])


@st.composite
def road(draw):
    by = draw(st.sampled_from(["create_road", "create_straight_road", "create_cloth_arc_cloth"]))
    r = {"by": by, "junction": draw(JUNCTION)}
    if by == "create_road":
        r["geoms"] = draw(shapes.few(shapes.geom(), 4, 10))
        r["list"] = len(r["geoms"]) > 1 or draw(st.booleans())
        for k in ("left", "right"):
            r[k] = draw(st.one_of(st.none(), shapes.count(5, 12)))
        r["width"] = draw(st.one_of(st.none(), WIDTH))
        r["again"] = draw(st.integers(0, 2)) == 0  # made of what the road made before it was made of
        r["center"] = draw(st.sampled_from([None, "solid", "broken", "solid_solid", "none"]))
    else:
        r["n"] = draw(st.one_of(st.none(), shapes.count(5, 12)))
        r["width"] = draw(st.one_of(st.none(), WIDTH))
        if by == "create_straight_road":
            r["length"] = draw(st.one_of(st.none(), shapes.LENGTH))
        else:
            k = draw(shapes.CURV)
            sign = draw(shapes.SIGN)
            t = shapes.pick(0.1, 0.5, math.pi / 6, floats=st.floats(0.02, 1.5))
            r.update(curv=k, arc=sign * draw(t) if draw(st.integers(0, 7)) else 0, cloth=sign * draw(t),
                     start=draw(st.one_of(st.none(), st.sampled_from([1e-6, 1e-3, 0.3]).map(lambda f: f * k))))
    return r


# the arguments of standard_lane
STANDARD = st.fixed_dictionaries({"width": st.one_of(st.none(), WIDTH), "mark": st.sampled_from([None, None, "solid", "curb", "none"]), "named": st.booleans()})


class C19(Prop):
    quick, thorough = 3000, 120000
    rule = ("1-3 roads of one document made by create_road (1-10 geometries of any kind, alone or in a list, sometimes those of the road before), "
            "create_straight_road and create_cloth_arc_cloth, with any subset of the options; sometimes a road of lanes made by standard_lane. Non-trivial: more than one road, "
            "or a road with a turn.")
    assumptions = ["The angles of create_cloth_arc_cloth have one sign (that of the arc may be 0); a negative curvature or negative angles turn right.",
                   "What create_straight_road and create_cloth_arc_cloth mark lanes with is not specified, except that they are marked."]
    must_cover = ("create_road", "create_straight_road", "create_cloth_arc_cloth", "turns right", "turns left", "one-sided", "no lanes", "standard lanes", "of the same geometries")

    def strategy(self):
        return st.fixed_dictionaries({"roads": st.lists(road(), min_size=1, max_size=3), "poses": st.lists(shapes.POSE, min_size=3, max_size=3),
                                      "longer": st.one_of(st.none(), st.integers(0, 2)),  # a road that gets one more geometry afterwards
                                      "standard": st.one_of([st.none()] * 3 + [st.lists(STANDARD, min_size=1, max_size=3)])})

    def check(self, c, sut):
        p = Prog()
        odr = p.new("OpenDrive", "generated")
        refs, last, roads = [], None, []
        for i, r in enumerate(c["roads"]):
            kw = {}
            if r["by"] == "create_road":
                again = r.get("again") and last
                if again:
                    r = dict(r, **{k: last[0][k] for k in ("geoms", "list", "center")})
                    gs = last[1]
                else:
                    gs = [shapes.build(p, g) for g in r["geoms"]]
                for k, a in (("left", "left_lanes"), ("right", "right_lanes"), ("width", "lane_width"), ("junction", "road_type")):
                    if r[k] is not None:
                        kw[a] = r[k]
                if r["center"]:
                    kw["center_road_mark"] = last[2] if again else p.new("RoadMark", E("RoadMarkType." + r["center"]), 0.3)
                last = r, gs, kw.get("center_road_mark"), bool(again)
                ref = p.new("create_road", gs if r["list"] else gs[0], i, **kw)
            else:
                for k, a in (("n", "n_lanes"), ("width", "lane_offset"), ("junction", "junction"), ("length", "length"), ("start", "cloth_start")):
                    if r.get(k) is not None:
                        kw[a] = r[k]
                if r["by"] == "create_straight_road":
                    ref = p.new(r["by"], i, **kw)
                else:
                    ref = p.new(r["by"], r["curv"], r["arc"], r["cloth"], i, **kw)
            roads.append(r)
            refs.append(ref)
            odr.call("add_road", ref)
        k = c.get("longer")
        if k is not None and k < len(roads) and roads[k]["by"] == "create_road":
            line = {"kind": "line", "length": 7}
            refs[k].call("planview.add_geometry", shapes.build(p, line))
            roads[k] = dict(roads[k], geoms=roads[k]["geoms"] + [line])
        standard = []
        for q in c.get("standard") or []:
            args, kw = [], {}
            if q["width"] is not None:
                kw["offset"] = q["width"]
            if q["mark"]:
                kw["rm"] = p.new("RoadMark", E("RoadMarkType." + q["mark"]), 0.25)
            if not q["named"] and "offset" in kw:
                args = [kw.pop("offset")]
                if "rm" in kw:
                    args.append(kw.pop("rm"))
            standard.append(p.new("standard_lane", *args, **kw))
        if standard:
            ls = p.new("Lanes")
            sec = p.new("LaneSection", 0, p.new("Lane"))
            for l in standard:
                sec.call("add_right_lane", l)
            ls.call("add_lanesection", sec)
            pv = p.new("PlanView", 5, 6, 0)
            pv.call("add_geometry", p.new("Line", 10))
            odr.call("add_road", p.new("Road", 50, pv, ls))
        pvs = [r.part("planview") for r in refs]
        for pv, pose in zip(pvs, c["poses"]):
            pv.call("set_start_point", *pose)
            pv.call("adjust_geometries")
        odr.call("adjust_roads_and_lanes")
        x = odr.xml()
        ends = [r.ask("get_end_point") for r in refs]
        res = sut.run(p)
        byid = nets.roads_by_id(parse(res[x]))
        labels = {"of the same geometries"} if last and last[3] else set()
        for i, r in enumerate(roads):
            require(str(i) in byid, "road %d is not written", i)
            el = byid[str(i)]
            what = "road %d made by %s" % (i, r)
            junction = r["junction"] if r["junction"] is not None else 1 if r["by"] == "create_cloth_arc_cloth" else -1
            require(attr(el, "junction") == str(junction), "%s: junction is %s", what, el.get("junction"))
            labels.add(r["by"])
            pl = nets.Placed(el)
            curves.same_pose(pl.start, c["poses"][i], pl.scale, what + ": its start")
            curves.same_pose(pl.end, curves.pose(res[ends[i]]), pl.scale, what + ": its end")
            secs = lanes.sections(el)
            require(len(secs) == 1 and secs[0].s == 0, "%s: lane sections at %s", what, [s.s for s in secs])
            width = 3 if r["width"] is None else r["width"]
            if r["by"] == "create_road":
                nl, nr = [1 if r[k] is None else r[k] for k in ("left", "right")]
                kinds = [g.kind for g in pl.geoms]
                require(kinds == [{"poly": "paramPoly3"}.get(g["kind"], g["kind"]) for g in r["geoms"]], "%s: its geometries are %s", what, kinds)
                want = shapes.chain_end(r["geoms"], *c["poses"][i])
                curves.same_pose(pl.end, want, pl.scale, what + ": where its geometries lead")
                require([m.get("type") for m in secs[0].center.el.findall("roadMark")] == [(r["center"] or "solid").replace("_", " ")],
                        "%s: the center is marked %s", what, [m.get("type") for m in secs[0].center.el.findall("roadMark")])
                for n, ls in ((nl, secs[0].left), (nr, secs[0].right)):
                    for l in ls:
                        got = [m.get("type") for m in l.el.findall("roadMark")]
                        want = ["solid" if abs(l.id) == n else "broken"]
                        require(got == want, "%s: lane %d of %d is marked %s, not %s", what, l.id, n, got, want)
                if nl != nr:
                    labels.add("one-sided" if not nl or not nr else "uneven")
            else:
                nl = nr = 1 if r["n"] is None else r["n"]
                for l in secs[0].left + secs[0].right:
                    require(len(l.el.findall("roadMark")) == 1, "%s: lane %d is not marked", what, l.id)
            if not nl and not nr:
                labels.add("no lanes")
            require([sorted(l.id for l in ls) for ls in (secs[0].left, secs[0].right)] == [list(range(1, nl + 1)), list(range(-nr, 0))],
                    "%s has lanes %s", what, sorted(secs[0].lanes))
            for l in secs[0].lanes.values():
                require(l.width == [width, 0, 0, 0], "%s: lane %d has width %s", what, l.id, l.width)
                require(attr(l.el, "type") == "driving", "%s: lane %d is of type %s", what, l.id, l.el.get("type"))
                require(l.links == {"predecessor": None, "successor": None}, "%s: lane %d is linked to %s", what, l.id, l.links)
            if r["by"] == "create_straight_road":
                L = 100 if r["length"] is None else r["length"]
                require([(g.kind, g.length) for g in pl.geoms] == [("line", L)], "%s consists of %s", what, [(g.kind, g.length) for g in pl.geoms])
            if r["by"] == "create_cloth_arc_cloth":
                require([g.kind for g in pl.geoms] == ["spiral", "arc", "spiral"], "%s consists of %s", what, [g.kind for g in pl.geoms])
                s1, arc, s2 = pl.geoms
                right = r["curv"] < 0 or r["cloth"] < 0
                labels.add("turns right" if right else "turns left")
                k = -abs(r["curv"]) if right else abs(r["curv"])
                near = abs(k) * 1e-9
                require(abs(arc.par[0] - k) <= near and abs(s1.par[1] - k) <= near and abs(s2.par[0] - k) <= near,
                        "%s: curvatures %s %s %s", what, s1.par, arc.par, s2.par)
                k0 = 1e-9 if r["start"] is None else abs(r["start"])
                require(abs(abs(s1.par[0]) - k0) <= 1e-9 * k0 and s1.par[0] == s2.par[1], "%s: it starts and ends with curvature %r and %r",
                        what, s1.par[0], s2.par[1])
                if r["start"] is not None:
                    require((s1.par[0] < 0) == right, "%s: it starts with curvature %r", what, s1.par[0])
                sign = -1 if right else 1
                turns = [sign * abs(v) for v in (r["cloth"], r["arc"], r["cloth"])]
                got = [(s1.par[0] + s1.par[1]) / 2 * s1.length, arc.par[0] * arc.length, (s2.par[0] + s2.par[1]) / 2 * s2.length]
                require(all(abs(a - b) < 1e-6 for a, b in zip(turns, got)), "%s: its parts turn by %s, not %s", what, got, turns)
        if standard:
            labels.add("standard lanes")
            w = lanes.sections(byid["50"])[0].right
            require([l.id for l in w] == [-1 - n for n in range(len(standard))], "standard lanes are written as lanes %s", [l.id for l in w])
            for l, q in zip(w, c["standard"]):
                require(l.width == [3 if q["width"] is None else q["width"], 0, 0, 0] and attr(l.el, "type") == "driving", "standard_lane with %s has width %s and type %s", q,
                        l.width, l.el.get("type"))
                got = [m.get("type") for m in l.el.findall("roadMark")]
                require(got == [q["mark"] or "broken"], "standard_lane with %s is marked %s", q, got)
        return Info(len(c["roads"]) > 1 or any(r["by"] != "create_straight_road" for r in c["roads"]), sorted(labels))


PROP = C19()
