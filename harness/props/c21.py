"""Looking at a document does not change it, and documents do not influence each other."""
from hypothesis import strategies as st

import nets
import worlds
from base import Info, Prop
from client import E, Path, Prog
from xmlobs import canon, first_difference, parse, require

DROP = {("header", "date")}
LOOKS = ["get_element", "write", "road elements", "end points", "lengths"]


def prefixed(build, prefix):
    p = Prog()
    out = build(p)
    for st_ in p.steps:
        rename(st_, prefix)
    return p, out


def rename(x, prefix):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("$", "dst", "o") and isinstance(v, str):
                x[k] = prefix + v
            else:
                rename(v, prefix)
    elif isinstance(x, list):
        for v in x:
            rename(v, prefix)


METHODS = ["get_element", "get_element", "get_attributes", "get_end_point", "get_start_point", "get_total_length"]


@st.composite
def generated(draw):
    """an island made by a generator"""
    f = draw(st.sampled_from(["create_road", "create_road", "create_straight_road", "create_cloth_arc_cloth"]))
    return {"f": f, "lanes": [draw(st.integers(0, 3)), draw(st.integers(0, 3))], "width": draw(st.sampled_from([None, 3, 3.5, 2])),
            "mark": draw(st.one_of(st.none(), st.tuples(st.sampled_from(worlds.MARKS), st.sampled_from([0.1, 0.7]), st.one_of(st.none(), st.just(5)))
                                   .map(list))),
            "junction": draw(st.sampled_from([None, -1, 77])), "shared": draw(st.booleans()), "late": draw(st.booleans()),
            "own": draw(st.lists(st.tuples(st.sampled_from(["link", "mark", "section", "object", "lane"]), st.integers(0, 9)).map(list), max_size=2))}


@st.composite
def crossing(draw):
    """a crossing made by the generators"""
    n = draw(st.integers(2, 4))
    return {"arms": n, "lanes": draw(st.integers(1, 3)), "width": draw(st.sampled_from([3, 3, 2.5])), "r": draw(st.sampled_from([5, 10])),
            "own": draw(st.lists(st.tuples(st.sampled_from(["link", "mark", "object"]), st.integers(0, 9)).map(list), max_size=2)),
            "at": draw(st.integers(0, 9))}


class C21(Prop):
    quick, thorough = 1600, 60000
    rule = ("Two whole documents, some with generated roads and crossings that are changed by hand, built in one or two stages (the second one, after adjusting, adds objects, generated roads and "
            "roads that continue the network, and adjusts again); the steps that build, place and write them are interleaved at "
            "random in one process, with looks (elements, attributes, files, end points, lengths - of whole documents, and of any "
            "part between any two steps) in between, and compared with each document made alone without looks. "
            "Non-trivial: the steps alternate at least twice.")
    assumptions = ["Objects and signals have explicit ids that differ between the documents (ids are unique in a process).",
                   "A look that raises, because the part is not complete, is not a violation."]
    must_cover = ("interleaved", "looked before placing", "looked after placing", "looked in between", "generators", "second stage", "crossing")

    def strategy(self):
        # how many steps of the one and of the other document run in turn
        turns = st.lists(st.integers(1, 40), min_size=1, max_size=30)
        looks = st.lists(st.tuples(st.integers(0, 999), st.integers(0, 999), st.sampled_from(METHODS)).map(list), max_size=6)
        doc = st.fixed_dictionaries({"world": worlds.world(auto_ids=False, max_steps=3), "gens": st.lists(generated(), max_size=3), "crossing": st.one_of(st.none(), crossing()),
                                     "stage": st.booleans(), "more": st.lists(worlds.item().map(lambda i: dict(i, id=True)), max_size=2), "grow": st.integers(0, 20)})
        return st.fixed_dictionaries({"a": doc, "b": doc, "turns": turns, "looks": st.tuples(looks, looks).map(list),
                                      "early": st.lists(st.sampled_from(["get_element", "write", "road elements"]), max_size=2),
                                      "late": st.lists(st.sampled_from(LOOKS), max_size=3)})

    def program(self, d, tag, early, late):
        w = d["world"]

        def make(p):
            b = worlds.build(p, w, adjust=False, tag=tag)
            if (d.get("crossing") or any(not g["late"] for g in d["gens"])) and all(r["pose"] is None for r in b.net.roads):
                first = b.roads[0].part("planview")
                first.call("set_start_point", 0, 0, 0)
                first.call("adjust_geometries")
            n = 0
            if d.get("crossing"):
                self.crossing(p, b, d["crossing"], tag)
            for g in d["gens"]:
                if not g["late"]:
                    self.island(p, b, g, n, w, tag)
                    n += 1
            for l in early:
                self.look(p, b, l)
            b.odr.call("adjust_roads_and_lanes")
            for l in late:
                self.look(p, b, l)
            if d["stage"]:
                for g in d["gens"]:
                    if g["late"]:
                        self.island(p, b, g, n, w, tag)
                        n += 1
                for k, it in enumerate(d["more"]):
                    b.items.append(worlds.add_item(p, b, it, "%s-more-%d" % (tag, k)))
                self.grow(p, b, d["grow"])
                b.odr.call("adjust_roads_and_lanes")
            return b.odr.xml(), [(k, o.xml()) for k, _, o in b.items]
        return prefixed(make, tag)

    def grow(self, p, b, pick):
        """one more road at a free end"""
        net = b.net
        free = [(i, e) for i in range(len(net.roads)) if net.normal(i) for e in nets.ENDS
                if net.joint_of(i, e) is None and (i, e) not in net.junction_ends]
        if not free:
            return
        i, e = free[pick % len(free)]
        sec = net.section_at(i, e)
        other = nets.OTHER[e]
        r = nets.new_road(p, {"id": "grown", "junction": -1, "geoms": [{"kind": "line", "length": 7}], "pose": None,
                              "sections": [{"s": 0, "left": sec["left"], "right": sec["right"]}]})
        b.roads[i].call("add_successor" if e == "end" else "add_predecessor", E("ElementType.road"), "grown", E("ContactPoint." + other))
        r.call("add_successor" if other == "end" else "add_predecessor", E("ElementType.road"), net.roads[i]["id"], E("ContactPoint." + e))
        b.odr.call("add_road", r)

    def crossing(self, p, b, x, tag):
        n = x["arms"]
        arms = [p.new("create_straight_road", "arm%d" % i, length=20, n_lanes=x["lanes"], lane_offset=x["width"]) for i in range(n)]
        js = p.new("create_junction_roads", arms, [i * 1.5707963267948966 for i in range(n)], x["r"], junction=50, startnum=900)
        pv = arms[0].part("planview")
        pv.call("set_start_point", -50, 5, 2)
        pv.call("adjust_geometries")
        roads = arms + [js.item(i) for i in range(n * (n - 1) // 2)]
        self.personal(p, roads[x["at"] % len(roads)], x["own"], x["lanes"], x["lanes"], tag + "-x")
        for r in roads:
            b.odr.call("add_road", r)
        b.odr.call("add_junction", p.new("create_junction", js, 50, arms))

    def personal(self, p, r, own, left, right, tag):
        """what a user does to one generated road, and to no other"""
        lanes = r.part("lanes")
        for k, (what, v) in enumerate(own):
            side, n = (("leftlanes", left), ("rightlanes", right))[v % 2]
            if what == "object":
                r.call("add_object", p.new("Object", v, 2, id="%s-own-%d" % (tag, k)))
            elif what == "section":
                sec = p.new("LaneSection", 1 + v / 10, p.new("Lane"))
                sec.call("add_left_lane", p.new("Lane", a=v))
                lanes.call("add_lanesection", sec)
            elif what == "lane":
                lanes.part("lanesections").item(0).call("add_right_lane" if v % 2 else "add_left_lane", p.new("Lane", a=v))
            elif n:
                lane = lanes.part("lanesections").item(0).part(side).item(v % n)
                if what == "link":
                    lane.call("add_link", "successor", 40 + v)
                else:
                    lane.call("add_roadmark", p.new("RoadMark", E("RoadMarkType.curb"), 0.1 * v))

    def island(self, p, b, g, n, w, tag):
        name = "gen%d" % n
        kw = {}
        if g["f"] == "create_road":
            if g["mark"]:
                k = {} if g["mark"][2] is None else {"length": g["mark"][2]}
                mark = getattr(b, "mark", None) if g["shared"] else None
                mark = mark or p.new("RoadMark", E("RoadMarkType." + g["mark"][0]), g["mark"][1], **k)
                b.mark = mark
                kw["center_road_mark"] = mark
            if g["width"]:
                kw["lane_width"] = g["width"]
            if g["junction"] is not None:
                kw["road_type"] = g["junction"]
            r = p.new("create_road", [p.new("Line", 10), p.new("Arc", 0.1, angle=1)], name, left_lanes=g["lanes"][0], right_lanes=g["lanes"][1], **kw)
        else:
            if g["width"]:
                kw["lane_offset"] = g["width"]
            if g["junction"] is not None:
                kw["junction"] = g["junction"]
            kw["n_lanes"] = g["lanes"][0]
            if g["f"] == "create_straight_road":
                r = p.new(g["f"], name, length=25, **kw)
            else:
                r = p.new(g["f"], 0.05, 0.5, 0.25, name, **kw)
        left, right = g["lanes"] if g["f"] == "create_road" else [g["lanes"][0]] * 2
        self.personal(p, r, g.get("own", []), left, right, "%s-%d" % (tag, n))
        pv = r.part("planview")
        pv.call("set_start_point", 5, 6, 1)
        pv.call("adjust_geometries")
        b.odr.call("add_road", r)

    def look(self, p, b, l):
        if l == "get_element":
            b.odr.call("get_element")
        elif l == "write":
            b.odr.call("write_xml", Path("look.xodr"))
        elif l == "road elements":
            for r in b.roads:
                r.call("get_element")
                r.call("get_attributes")
        elif l == "end points":
            for r in b.roads:
                r.call("get_end_point")
                pv = r.part("planview")
                pv.call("get_start_point")
                pv.call("get_end_point")
        else:
            for r in b.roads:
                r.part("planview").call("get_total_length")

    def spied(self, steps, looks, tag):
        """the steps with looks at anything made so far in between"""
        made, big = [], []
        out = []
        at = {}
        for pos, target, method in looks:
            at.setdefault(pos * len(steps) // 1000, []).append((target, method))
        n = 0
        for k, s in enumerate(steps):
            for target, method in at.get(k, []):
                pool = big if big and target % 2 else made
                if pool:
                    n += 1
                    out.append({"op": "call", "o": pool[target // 2 % len(pool)], "f": method, "dst": "%slook%d" % (tag, n), "may": True})
            out.append(s)
            if s["op"] == "new":
                made.append(s["dst"])
                if s["f"] in ("Road", "OpenDrive", "Junction", "create_junction", "Object", "Signal", "PlanView") or s["f"].startswith("create_"):
                    big.append(s["dst"])
        return out

    def check(self, c, sut):
        alone = []
        for tag in "ab":
            p, (x, items) = self.program(c[tag], tag, [], [])
            x.name = tag + x.name
            alone.append(canon(parse(sut.run(p)[x]), DROP))
        pa, (xa, _) = self.program(c["a"], "a", c["early"], c["late"])
        pb, (xb, _) = self.program(c["b"], "b", c["early"], c["late"])
        both = Prog()
        xa.name, xb.name = "a" + xa.name, "b" + xb.name
        sa, sb = [self.spied(q.steps, l, t) for q, l, t in zip((pa, pb), c["looks"], "ab")]
        n = 0
        while sa or sb:
            k = c["turns"][n % len(c["turns"])]
            src = (sa, sb)[n % 2]
            both.steps += src[:k]
            del src[:k]
            n += 1
        res = sut.run(both)
        for tag, x, want in (("first", xa, alone[0]), ("second", xb, alone[1])):
            d = first_difference(want, canon(parse(res[x]), DROP))
            require(d is None, "the %s document differs from the same document made alone: %s", tag, d)
        labels = []
        if n > 2:
            labels.append("interleaved")
        if c["early"]:
            labels.append("looked before placing")
        if c["late"]:
            labels.append("looked after placing")
        if any(c["looks"]):
            labels.append("looked in between")
        if c["a"]["gens"] or c["b"]["gens"]:
            labels.append("generators")
        if c["a"].get("crossing") or c["b"].get("crossing"):
            labels.append("crossing")
        if c["a"]["stage"] or c["b"]["stage"]:
            labels.append("second stage")
        return Info(n > 2, labels)


PROP = C21()
