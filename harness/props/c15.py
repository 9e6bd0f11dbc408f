"""Road marks."""
from hypothesis import strategies as st

import shapes
from base import Info, Prop
from client import E, Prog
from xmlobs import attr, num, one, parse, require

TYPES = {"none": "none", "solid": "solid", "broken": "broken", "solid_solid": "solid solid", "solid_broken": "solid broken",
         "broken_solid": "broken solid", "broken_broken": "broken broken", "botts_dots": "botts dots", "grass": "grass",
         "curb": "curb", "custom": "custom", "edge": "edge"}
RULES = {"no_passing": "no passing", "caution": "caution", "none": "none"}
COLORS = ["standard", "blue", "green", "red", "white", "yellow", "orange"]
WEIGHTS = ["standard", "bold"]
CHANGES = ["increase", "decrease", "both", "none"]
SIZE = shapes.pick(0, 1, 2, 4.5, 0.2, floats=st.floats(1e-3, 100))
ANY = shapes.pick(0, 0.1, -0.1, 5, floats=st.floats(-50, 50))
ORDER = ["width", "length", "space", "toffset", "soffset", "rule", "color", "marking_weight", "height", "laneChange"]


@st.composite
def mark(draw):
    m = {"type": draw(st.sampled_from(["solid", "broken", "broken", "solid"] + sorted(TYPES)))}
    for k, s in (("width", SIZE), ("length", SIZE), ("space", SIZE), ("toffset", ANY), ("soffset", ANY),
                 ("rule", st.sampled_from(sorted(RULES))), ("color", st.sampled_from(COLORS)),
                 ("marking_weight", st.sampled_from(WEIGHTS)), ("height", SIZE), ("laneChange", st.sampled_from(CHANGES))):
        if draw(st.integers(0, 2)) == 0:
            m[k] = draw(s)
    return m


def enc(m, k):
    e = {"rule": "MarkRule.", "color": "RoadMarkColor.", "marking_weight": "RoadMarkWeight.", "laneChange": "LaneChange."}.get(k)
    return E(e + m[k]) if e else m[k]


def has_line(m):
    return any(k in m for k in ("length", "space", "toffset", "rule"))


def compare(el, m):
    """el is what is written for m"""
    line = has_line(m)
    what = "a %s mark with %s" % (m["type"], {k: v for k, v in m.items() if k != "type"})
    width = m.get("width", 0.2 if line else None)
    for k, v in (("sOffset", m.get("soffset", 0)), ("height", m.get("height", 0.02)), ("width", width)):
        if v is None:
            require(el.get(k) is None, "%s: %s=%r is written", what, k, el.get(k))
        else:
            require(num(el, k) == v, "%s: %s is written as %r, not %r", what, k, el.get(k), v)
    for k, v in (("type", TYPES[m["type"]]), ("weight", m.get("marking_weight", "standard")), ("color", m.get("color", "standard")),
                 ("laneChange", m.get("laneChange"))):
        require(el.get(k) == v, "%s: %s is written as %r, not %r", what, k, el.get(k), v)
    if not line:
        require(len(el) == 0, "%s has children %s", what, [c.tag for c in el])
        return
    require(len(el) == 1 and el[0].tag == "type", "%s has children %s, not one <type>", what, [c.tag for c in el])
    t = el[0]
    require(attr(t, "name") == TYPES[m["type"]], "%s: its <type> is named %r", what, t.get("name"))
    require(num(t, "width") == width, "%s: its <type> has width %r", what, t.get("width"))
    ln = one(t, "line")
    dl, ds = {"broken": (3, 3), "solid": (3, 0)}.get(m["type"], (0, 0))
    for k, v in (("length", m.get("length", dl)), ("space", m.get("space", ds)), ("tOffset", m.get("toffset", 0)),
                 ("sOffset", m.get("soffset", 0)), ("width", width)):
        require(num(ln, k) == v, "%s: the line's %s is %r, not %r", what, k, ln.get(k), v)
    require(attr(ln, "rule") == RULES[m.get("rule", "none")], "%s: the line's rule is %r", what, ln.get("rule"))


class C15(Prop):
    quick, thorough = 6000, 200000
    rule = ("1-4 road marks with any subset of the arguments given by name or by position, on lanes of one section (sometimes "
            "one mark on several lanes), and stand-alone RoadLines. Non-trivial: at least one mark with a line.")
    assumptions = ["Sizes are not negative."]
    must_cover = ("zero given", "line", "no line", "shared", "no passing", "other type with line", "positional")

    def strategy(self):
        num_ = SIZE
        line = st.fixed_dictionaries({}, optional={"width": num_, "length": num_, "space": num_, "toffset": ANY,
                                                   "soffset": num_, "rule": st.sampled_from(sorted(RULES))})
        return st.fixed_dictionaries({"marks": st.lists(mark(), min_size=1, max_size=4), "positional": st.booleans(),
                                      "on": st.lists(st.integers(0, 9), min_size=1, max_size=6), "line": line})

    def check(self, c, sut):
        p = Prog()
        refs = []
        labels = set()
        for m in c["marks"]:
            kw = {k: enc(m, k) for k in ORDER if k in m}
            a = [E("RoadMarkType." + m["type"])]
            if c["positional"]:
                for k in ORDER:
                    if k not in kw:
                        break
                    a.append(kw.pop(k))
                if len(a) > 1:
                    labels.add("positional")
            refs.append(p.new("RoadMark", *a, **kw))
        center = p.new("Lane")
        center.call("add_roadmark", refs[0])
        sec = p.new("LaneSection", 0, center)
        for n, k in enumerate(c["on"]):
            lane = p.new("Lane", a=3)
            lane.call("add_roadmark", refs[k % len(refs)])
            sec.call("add_left_lane" if n % 2 else "add_right_lane", lane)
        x = sec.xml()
        alone = [r.xml() for r in refs]
        kw = {k: E("MarkRule." + v) if k == "rule" else v for k, v in c["line"].items()}
        ln = p.new("RoadLine", **kw).xml()
        res = sut.run(p)
        el = parse(res[x])
        got = {int(attr(l, "id")): one(l, "roadMark") for side in el for l in side.findall("lane")}
        compare(got[0], c["marks"][0])
        used = [0]
        nl = nr = 0
        for n, k in enumerate(c["on"]):
            if n % 2:
                nl += 1
            else:
                nr += 1
            i = nl if n % 2 else -nr
            require(i in got, "lane %d is not written", i)
            compare(got[i], c["marks"][k % len(refs)])
            used.append(k % len(refs))
        for r, m in zip(alone, c["marks"]):
            compare(parse(res[r]), m)
            labels.add("line" if has_line(m) else "no line")
            if has_line(m) and m["type"] not in ("solid", "broken"):
                labels.add("other type with line")
            if any(m.get(k) == 0 for k in ("length", "space", "toffset", "width")):
                labels.add("zero given")
            if m.get("rule") == "no_passing":
                labels.add("no passing")
        if len(set(used)) < len(used):
            labels.add("shared")
        el = parse(res[ln])
        require(el.tag == "line", "a RoadLine is written as <%s>", el.tag)
        for a, k in (("length", "length"), ("space", "space"), ("tOffset", "toffset"), ("sOffset", "soffset"), ("width", "width")):
            require(num(el, a) == c["line"].get(k, 0), "a RoadLine with %s is written with %s=%r", c["line"], a, el.get(a))
        rule = c["line"].get("rule")
        require(el.get("rule") == (RULES[rule] if rule else None), "a RoadLine with rule %s is written with %r", rule, el.get("rule"))
        return Info(any(has_line(m) for m in c["marks"]), sorted(labels))


PROP = C15()
