"""Every enumeration member is written with its OpenDRIVE spelling."""
from hypothesis import strategies as st

from base import Info, Prop
from client import E, Prog
from props.c17 import TYPES
from props.c15 import TYPES as MARKS
from xmlobs import attr, one, parse, require

SPELLING = {
    "MarkRule": {"no_passing": "no passing", "caution": "caution", "none": "none"},
    "LaneType": {n: n for n in (
        "none driving stop shoulder biking sidewalk border restricted parking bidirectional median special1 special2 special3 roadWorks "
        "tram rail entry exit offRamp onRamp connectingRamp bus taxi HOV mwyEntry mwyExit").split()},
    "RoadMarkColor": {n: n for n in "standard blue green red white yellow orange".split()},
    "RoadMarkWeight": {n: n for n in ("standard", "bold")},
    "RoadMarkType": MARKS,
    "LaneChange": {n: n for n in "increase decrease both none".split()},
    "ElementType": {n: n for n in ("road", "junction")},
    "ContactPoint": {n: n for n in ("start", "end")},
    "Direction": {n: n for n in ("same", "opposite")},
    "Orientation": {"positive": "+", "negative": "-", "none": "none"},
    "ObjectType": {n: n for n in TYPES},
    "Dynamic": {n: n for n in ("yes", "no")},
}
EVERY = [(e, n) for e in sorted(SPELLING) for n in sorted(SPELLING[e])]


def make(p, e, n):
    """(what shows the member, where its spelling is found)"""
    m = E("%s.%s" % (e, n))
    solid = E("RoadMarkType.solid")

    def mark(k):
        return lambda x: attr(x, k)

    def path(k, *tags):
        def get(x):
            for t in tags:
                x = one(x, t)
            return attr(x, k)
        return get
    if e == "MarkRule":
        return [(p.new("RoadMark", solid, rule=m), path("rule", "type", "line")), (p.new("RoadLine", rule=m), mark("rule"))]
    if e == "LaneType":
        s = p.new("LaneSection", 0, p.new("Lane"))
        s.call("add_left_lane", p.new("Lane", m))
        return [(s, path("type", "left", "lane"))]
    if e in ("RoadMarkColor", "RoadMarkWeight", "LaneChange"):
        arg, att = {"RoadMarkColor": ("color", "color"), "RoadMarkWeight": ("marking_weight", "weight"), "LaneChange": ("laneChange", "laneChange")}[e]
        return [(p.new("RoadMark", solid, **{arg: m}), mark(att)), (p.new("RoadMark", solid, length=1, **{arg: m}), mark(att))]
    if e == "RoadMarkType":
        return [(p.new("RoadMark", m), mark("type")), (p.new("RoadMark", m, length=2, space=1), mark("type")),
                (p.new("RoadMark", m, length=2, space=1), path("name", "type"))]
    if e in ("ElementType", "ContactPoint", "Direction"):
        def road():
            pv = p.new("PlanView")
            pv.call("add_geometry", p.new("Line", 1))
            la = p.new("Lanes")
            la.call("add_lanesection", p.new("LaneSection", 0, p.new("Lane")))
            return p.new("Road", 1, pv, la)
        out = []
        for f in ("predecessor", "successor", "neighbor"):
            t = m if e == "ElementType" else E("ElementType.road")
            if f == "neighbor" and e == "ContactPoint" or f != "neighbor" and e == "Direction":
                continue
            third = E("Direction.same") if f == "neighbor" else E("ContactPoint.start")
            r = road()
            r.call("add_" + f, t, 2, third if e == "ElementType" else m)
            out.append((r, path({"ElementType": "elementType", "ContactPoint": "contactPoint", "Direction": "direction"}[e], "link", f)))
        if e == "ContactPoint":
            out.append((p.new("Connection", 1, 2, m), mark("contactPoint")))
        return out
    if e == "ObjectType":
        return [(p.new("Object", 0, 0, m), mark("type"))]
    arg = {"Orientation": "orientation", "Dynamic": "dynamic"}[e]
    return [(p.new("Object", 0, 0, **{arg: m}), mark(arg)), (p.new("Signal", 0, 0, "se", "1", **{arg: m}), mark(arg))]


class C23(Prop):
    quick, thorough = 600, 6000
    rule = ("Selections of 1-12 of the %d members of the 12 enumerations, in any order, at every place that takes them; the pinned "
            "regression case contains every member. Non-trivial: two or more members." % len(EVERY))
    assumptions = ["The spellings are those of OpenDRIVE 1.5/1.6; RoadType is not an enumeration in the code and is not written anywhere.",
                   "Members that the table does not know are not checked."]
    must_cover = ("every member",)

    def strategy(self):
        return st.fixed_dictionaries({"members": st.one_of(st.lists(st.sampled_from(EVERY), min_size=1, max_size=12),
                                                           st.sampled_from(sorted(SPELLING)).map(lambda e: [(e, n) for n in SPELLING[e]]))})

    def check(self, c, sut):
        p = Prog()
        todo = []
        members = c["members"] if c["members"] != "all" else EVERY
        for e, n in members:
            for ref, get in make(p, e, n):
                todo.append((e, n, ref.xml(), get))
            todo.append((e, n, p.ask("enum2str", E("%s.%s" % (e, n))), None))
        res = sut.run(p)
        for e, n, x, get in todo:
            if get is None:
                want = n.replace("_", " ")
                require(res[x] == want, "enum2str gives %r for %s.%s", res[x], e, n)
                continue
            got = get(parse(res[x]))
            require(got == SPELLING[e][n], "%s.%s is written as %r, not %r", e, n, got, SPELLING[e][n])
        return Info(len(members) > 1, ["every member"] if c["members"] == "all" else sorted({e for e, _ in members}))


PROP = C23()
