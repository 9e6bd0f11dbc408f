"""Lane sections are written as they were built, and linked as the lane linkers say."""
from hypothesis import strategies as st

import lanes
import shapes
from base import Info, Prop
from client import E, Prog
from xmlobs import attr, num, one, opt, parse, require

TYPES = ["driving", "none", "stop", "shoulder", "biking", "sidewalk", "border", "restricted", "parking", "bidirectional",
         "median", "entry", "exit", "bus"]
MARKS = ["none", "solid", "broken", "curb"]
COEF = shapes.pick(0, 3, 0.5, -0.01, 1e-5, floats=st.floats(-10, 10))


@st.composite
def lane(draw, side=True):
    c = {"type": draw(st.sampled_from([None] + TYPES)), "mark": draw(st.sampled_from([None, None] + MARKS))}
    for k in ("a", "b", "c", "d", "soffset"):
        if draw(st.booleans()):
            c[k] = draw(COEF)
    if side:
        c["side"] = draw(st.sampled_from(["left", "right"]))
    return c


class C14(Prop):
    quick, thorough = 4000, 150000
    rule = ("A road of 1-4 lane sections with left and right lanes added in any interleaving (any type, width polynomial, "
            "road mark), and one or several LaneLinkers between neighbouring sections, passed alone, in lists, or again with a "
            "later section. Non-trivial: two sections or more, and at least one lane link.")
    assumptions = ["A linker is passed when the sections that it links have their lanes; no link is given twice; lanes that split or merge have "
                   "several links."]
    must_cover = ("linker grows", "many lanes", "linker passed again", "list of linkers", "several linkers", "interleaved", "split or merge")

    def strategy(self):
        @st.composite
        def case(draw):
            n = draw(st.one_of(st.sampled_from([1, 2, 2, 3, 3, 4]), shapes.count(4, 12, 1)))
            secs = [{"center": draw(lane(side=False)), "lanes": draw(st.lists(lane(), max_size=6)) + [dict(x) for x in draw(st.lists(lane(), max_size=1)) * draw(st.sampled_from([0, 0, 0, 9, 13]))],
                     "ds": draw(shapes.pick(10, 50, floats=st.floats(0.1, 100)))} for _ in range(n)]
            joins = []
            for k in range(1, n):
                joins.append({
                    # (pick of the lane before, pick of the lane after, which linker)
                    "pairs": draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(0, 1)).map(list), max_size=6)),
                    "how": draw(st.sampled_from(["with the section", "with the section", "at the end", "again", "again in a list"]))})
            return {"secs": secs, "joins": joins, "adjust": draw(st.booleans()), "one": draw(st.integers(0, 3)) == 0, "grow": draw(st.booleans()), "split": draw(st.integers(0, 3)) == 0}
        return case()

    def check(self, c, sut):
        p = Prog()
        labels = []
        total = sum(s["ds"] for s in c["secs"])
        pv = p.new("PlanView")
        pv.call("add_geometry", p.new("Line", total))
        lanes_ref = p.new("Lanes")

        def build(l):
            k = {x: l[x] for x in ("a", "b", "c", "d", "soffset") if x in l}
            if l["type"]:
                k["lane_type"] = E("LaneType." + l["type"])
            r = p.new("Lane", **k)
            if l["mark"]:
                r.call("add_roadmark", p.new("RoadMark", E("RoadMarkType." + l["mark"])))
            return r

        s = 0.0
        want = []   # per section: s, lanes {id: data}, links {id: {kind: id}}
        refs = []
        secrefs = []
        for sec in c["secs"]:
            sr = p.new("LaneSection", s, build(sec["center"]))
            w = {"s": s, "lanes": {0: sec["center"]}, "links": {}, "order": {"left": [], "right": []}}
            rr = {}
            nl, nr = 0, 0
            seq = []
            for l in sec["lanes"]:
                r = build(l)
                sr.call("add_%s_lane" % l["side"], r)
                if l["side"] == "left":
                    nl += 1
                    i = nl
                else:
                    nr -= 1
                    i = nr
                seq.append(l["side"][0])
                w["lanes"][i] = l
                w["links"][i] = {}
                rr[i] = r
            if "lrl" in "".join(seq) or "rlr" in "".join(seq):
                labels.append("interleaved")
            if nl > 9 or nr < -9:
                labels.append("many lanes")
            want.append(w)
            refs.append(rr)
            secrefs.append(sr)
            s += sec["ds"]
        linked = 0
        pending = []
        linkers_of = []
        shared = p.new("LaneLinker") if c["one"] else None
        later = {}  # links that the single linker gets just before a section is added
        for k, join in enumerate(c["joins"]):
            mine = []
            before, after = sorted(refs[k]), sorted(refs[k + 1])
            for a, b, which in join["pairs"]:
                if not before or not after:
                    continue
                i, j = before[a % len(before)], after[b % len(after)]
                here, there = want[k]["links"][i].setdefault("successor", []), want[k + 1]["links"][j].setdefault("predecessor", [])
                if (here or there) and (not c.get("split") or j in here):
                    continue
                if here or there:
                    labels.append("split or merge")
                here.append(j)
                there.append(i)
                linked += 1
                if shared is None:
                    while len(mine) <= which:
                        mine.append(p.new("LaneLinker"))
                    mine[which].call("add_link", refs[k][i], refs[k + 1][j])
                elif c.get("grow"):
                    later.setdefault(k + 1, []).append((refs[k][i], refs[k + 1][j]))
                else:
                    shared.call("add_link", refs[k][i], refs[k + 1][j])
            linkers_of.append(mine)
        for k, sr in enumerate(secrefs):
            last = k == len(secrefs) - 1
            if c["one"]:
                # a single linker with the links of the whole road, passed with one or all of the sections
                for a, b in later.get(k, []):
                    shared.call("add_link", a, b)
                    labels.append("linker grows")
                if c["joins"] and (last or c["joins"][k]["how"].startswith("again")):
                    lanes_ref.call("add_lanesection", sr, shared)
                    if not last:
                        labels.append("linker passed again")
                else:
                    lanes_ref.call("add_lanesection", sr)
                continue
            give = list(pending)
            pending = []
            if k:
                how, mine = c["joins"][k - 1]["how"], linkers_of[k - 1]
                if how == "at the end" and not last:
                    pending += mine
                else:
                    give += mine
                    if how.startswith("again") and not last and mine:
                        pending += mine
                        labels.append("linker passed again")
            if len(give) > 1:
                labels.append("several linkers")
            if not give:
                lanes_ref.call("add_lanesection", sr)
            elif len(give) == 1 and not (k and c["joins"][k - 1]["how"] == "again in a list"):
                lanes_ref.call("add_lanesection", sr, give[0])
            else:
                labels.append("list of linkers")
                lanes_ref.call("add_lanesection", sr, p.op("list", *[{"$": g.name} for g in give]))
        road = p.new("Road", 1, pv, lanes_ref)
        if c["adjust"]:
            odr = p.new("OpenDrive", "lanes")
            odr.call("add_road", road)
            odr.call("adjust_roads_and_lanes")
        x = road.xml()
        el = one(parse(sut.run(p)[x]), "lanes")
        secs = el.findall("laneSection")
        require(len(secs) == len(want), "%d lane sections were added, %d are written", len(want), len(secs))
        for n, (e, w) in enumerate(zip(secs, want)):
            require(num(e, "s") == w["s"], "lane section %d starts at %r, not %r", n, num(e, "s"), w["s"])
            ids = {}
            for side, ok in (("left", lambda i: i > 0), ("center", lambda i: i == 0), ("right", lambda i: i < 0)):
                se = opt(e, side)
                if se is None:
                    got = []
                else:
                    got = [lanes.WLane(x, several=True) for x in se.findall("lane")]
                expect = [i for i in w["lanes"] if ok(i)]
                require(sorted(g.id for g in got) == sorted(expect), "section %d: the lanes on the %s are %s, not %s", n, side,
                        [g.id for g in got], expect)
                order = [g.id for g in got]
                require(order in (sorted(order), sorted(order, reverse=True)), "section %d: the lanes on the %s are written in the order %s", n, side, order)
                for g in got:
                    ids[g.id] = g
            tags = [x.tag for x in e]
            require(tags == [t for t in ("left", "center", "right") if t in tags], "section %d is written as %s", n, tags)
            for i, g in ids.items():
                l = w["lanes"][i]
                where = "section %d lane %d" % (n, i)
                require(attr(g.el, "type") == (l["type"] or "driving"), "%s has type %s, not %s", where, attr(g.el, "type"), l["type"])
                require(g.width == [l.get(k, 0) for k in "abcd"], "%s has width %s, not %s", where, g.width, [l.get(k, 0) for k in "abcd"])
                so = num(g.el.find("width"), "sOffset")
                require(so == l.get("soffset", 0), "%s has sOffset %r, not %r", where, so, l.get("soffset", 0))
                links = {k: sorted(v) for k, v in g.all.items() if v}
                expect = {k: sorted(v) for k, v in w["links"].get(i, {}).items() if v}
                require(links == expect, "%s is linked to %s, not %s", where, links, expect)
                marks = [attr(m, "type") for m in g.el.findall("roadMark")]
                require(marks == ([l["mark"]] if l["mark"] else []), "%s has road marks %s, not %s", where, marks, l["mark"])
        return Info(len(want) > 1 and linked, sorted(set(labels)))


PROP = C14()
