"""The attributes of objects and signals."""
from hypothesis import strategies as st

import nets
import shapes
from base import Info, Prop
from client import E, Prog
from xmlobs import attr, num, parse, require, tonum

F = shapes.pick(0, 1, -2.5, 1e-3, floats=st.floats(-1000, 1000))
POS = shapes.pick(0, 1, 2.5, floats=st.floats(0, 100))
ANG = shapes.pick(0, 0.5, -0.5, floats=st.floats(-7, 7))
TEXT = st.sampled_from(["n", "a b", "x<y>&\"'", "\u00e5\u00e4\u00f6", "0", "-1", "None such"])
TYPES = ["none", "obstacle", "pole", "tree", "vegetation", "barrier", "building", "parkingSpace", "patch", "railing",
         "trafficIsland", "crosswalk", "streetLamp", "gantry", "soundBarrier", "roadMark"]
ORIENT = {"positive": "+", "negative": "-", "none": "none"}


def some(draw, table):
    out = {}
    for k, s in table:
        if draw(st.booleans()):
            out[k] = draw(s)
    return out


COMMON = [("subtype", TEXT), ("name", TEXT), ("dynamic", st.sampled_from(["yes", "no"])), ("zOffset", F),
          ("orientation", st.sampled_from(sorted(ORIENT))), ("pitch", ANG), ("roll", ANG), ("height", POS), ("width", POS)]


@st.composite
def signal(draw):
    k = some(draw, COMMON + [("hOffset", ANG), ("value", F)])
    if "value" in k:
        k["unit"] = draw(st.sampled_from(["km/h", "m", "%"]))
    return {"kind": "Signal", "s": draw(F), "t": draw(F), "country": draw(st.sampled_from(["se", "SE", "deu", "US"])),
            "type": draw(st.sampled_from(["c1", "-1", "1000001"])), "k": k}


@st.composite
def obj(draw):
    k = some(draw, COMMON + [("hdg", ANG), ("length", POS), ("radius", POS), ("validLength", POS)])
    if draw(st.booleans()):
        k.pop("radius", None)
    t = draw(st.one_of(st.none(), st.sampled_from(TYPES).map(lambda t: {"enum": t}), st.sampled_from(["house", "x"]).map(lambda t: {"text": t})))
    reps = []
    for _ in range(draw(st.sampled_from([0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 3, 7]))):
        reps.append({"late": draw(st.integers(0, 3)) == 0, "length": draw(POS), "distance": draw(POS), "k": some(draw, [(n, F) for n in (
            "sStart", "tStart", "tEnd", "heightStart", "heightEnd", "zOffsetStart", "zOffsetEnd", "widthStart", "widthEnd",
            "lengthStart", "lengthEnd", "radiusStart", "radiusEnd")])})
    return {"kind": "Object", "s": draw(F), "t": draw(F), "type": t, "k": k, "repeats": reps}


def build(p, it, extra=None):
    k = dict(it["k"], **(extra or {}))
    if "dynamic" in k:
        k["dynamic"] = E("Dynamic." + k["dynamic"])
    if "orientation" in k:
        k["orientation"] = E("Orientation." + k["orientation"])
    if it["kind"] == "Signal":
        return p.new("Signal", it["s"], it["t"], it["country"], it["type"], **k)
    if it["type"]:
        k["Type"] = E("ObjectType." + it["type"]["enum"]) if "enum" in it["type"] else it["type"]["text"]
    o = p.new("Object", it["s"], it["t"], **k)
    for r in it["repeats"]:
        if not r.get("late"):
            o.call("repeat", r["length"], r["distance"], **r["k"])
    return o


def repeat_later(o, it):
    """after the object was added to a road"""
    for r in it.get("repeats", ()):
        if r.get("late"):
            o.call("repeat", r["length"], r["distance"], **r["k"])


def numbers(el, want, optional, what):
    """want: written as these numbers; None: not written (or as its default, for those in optional)"""
    for k, v in want.items():
        if v is None:
            require(el.get(k) is None, "%s: %s=%r is written, although there is none", what, k, el.get(k))
        elif k in optional and el.get(k) is None:
            require(v == optional[k], "%s: %s=%r is not written", what, k, v)
        else:
            require(num(el, k) == v, "%s: %s is written as %s, not %r", what, k, el.get(k), v)


NAMED = st.one_of(st.integers(0, 99), TEXT)


COMMON_ATTRS = "id s t subtype dynamic zOffset pitch roll width height name type orientation "
REPEAT_ATTRS = "s length distance tStart tEnd heightStart heightEnd zOffsetStart zOffsetEnd widthStart widthEnd lengthStart lengthEnd radiusStart radiusEnd"


class C17(Prop):
    quick, thorough = 6000, 200000
    rule = ("Signals and objects with any subset of the optional arguments, repeated 0-7 times with any subset of the "
            "overrides (before or after it is added), with and without ids of their own, on a road with other ones. Non-trivial: optional arguments were given.")
    assumptions = ["A signal value comes with its unit (the documentation asks for it)."]
    must_cover = ("signal", "repeat", "repeat without height", "radius and size", "only width", "only length", "several repeats", "dependency", "late repeat", "id")

    def strategy(self):
        return st.fixed_dictionaries({"items": st.lists(st.one_of(signal(), obj(), obj()), min_size=1, max_size=3), "alone": st.booleans(),
                                      "ids": st.lists(st.one_of(st.none(), st.integers(10, 99), st.text("a \u00e5<-", max_size=3).map(lambda t: "x" + t)),
                                                      min_size=3, max_size=3, unique_by=lambda v: object() if v is None else v),
                                      "dependency": st.one_of(st.none(), st.none(), st.tuples(NAMED, NAMED).map(list))})

    def check(self, c, sut):
        p = Prog()
        refs = []
        ids = c.get("ids") or [None] * len(c["items"])
        for it, i in zip(c["items"], ids):
            refs.append(build(p, it, {} if i is None else {"id": i}))
        road = nets.new_road(p, {"id": 1, "junction": -1, "geoms": [{"kind": "line", "length": 100}], "pose": None,
                                 "sections": [{"s": 0, "left": 1, "right": 1}]})
        for kind in ("Object", "Signal"):
            mine = [r for it, r in zip(c["items"], refs) if it["kind"] == kind]
            if c["alone"]:
                for r in mine:
                    road.call("add_" + kind.lower(), r)
            elif mine:
                road.call("add_" + kind.lower(), p.op("list", *[{"$": r.name} for r in mine]))
        for it, r in zip(c["items"], refs):
            repeat_later(r, it)
        dep = p.new("Dependency", *c["dependency"]).xml() if c.get("dependency") else None
        x = road.xml()
        own = [r.xml() for r in refs]
        res = sut.run(p)
        el = parse(res[x])
        labels = set()
        if dep:
            e = parse(res[dep])
            require((e.tag, dict(e.attrib)) == ("dependency", {"id": str(c["dependency"][0]), "type": str(c["dependency"][1])}),
                    "dependency %s is written as %s %s", c["dependency"], e.tag, e.attrib)
            labels.add("dependency")
        for kind, group, tag in (("Object", "objects", "object"), ("Signal", "signals", "signal")):
            els = [e for g in el.findall(group) for e in g]
            mine = [(it, o, i) for it, o, i in zip(c["items"], own, ids) if it["kind"] == kind]
            require(len(els) == len(mine), "%d %s were added, %d are written", len(mine), group, len(els))
            for e, (it, o, i) in zip(els, mine):
                alone = parse(res[o])
                for w in (e, alone):
                    require(w.tag == tag, "a %s is written as <%s>", kind, w.tag)
                    if i is not None:
                        require(attr(w, "id") == str(i), "the %s with the id %r is written with %r", tag, i, w.get("id"))
                        labels.add("id")
                    (self.signal if kind == "Signal" else self.object)(w, it, labels)
        return Info(any(it["k"] for it in c["items"]), sorted(labels))

    def known(self, e, more, what):
        for x in [e] + e.findall("repeat"):
            n = set(x.attrib) - set((REPEAT_ATTRS if x.tag == "repeat" else COMMON_ATTRS + more).split())
            require(not n, "%s: a %s is written with %s, which was not given", what, x.tag, sorted(n))

    def common(self, e, it, what, zdef, odef):
        k = it["k"]
        numbers(e, {"s": it["s"], "t": it["t"], "zOffset": k.get("zOffset", zdef), "pitch": k.get("pitch", 0), "roll": k.get("roll", 0),
                    "height": k.get("height")}, {"pitch": 0, "roll": 0, "zOffset": 0}, what)
        require(e.get("name") == k.get("name"), "%s: name is %r, not %r", what, e.get("name"), k.get("name"))
        require(attr(e, "dynamic") == k.get("dynamic", "no"), "%s: dynamic is %r", what, e.get("dynamic"))
        want = ORIENT[k.get("orientation", odef)]
        require(attr(e, "orientation") == want, "%s: orientation is %r, not %r", what, e.get("orientation"), want)

    def signal(self, e, it, labels):
        k = it["k"]
        what = "a signal with %s" % k
        self.common(e, it, what, 1.5, "positive")
        self.known(e, "country hOffset value unit", what)
        numbers(e, {"hOffset": k.get("hOffset", 0), "value": k.get("value"), "width": k.get("width")}, {"hOffset": 0}, what)
        for a, v in (("country", it["country"].upper()), ("type", it["type"]), ("subtype", k.get("subtype", "-1")), ("unit", k.get("unit"))):
            require(e.get(a) == v, "%s: %s is %r, not %r", what, a, e.get(a), v)
        labels.add("signal")

    def object(self, e, it, labels):
        k = it["k"]
        what = "an object with %s" % k
        self.common(e, it, what, 0, "none")
        self.known(e, "validLength hdg length radius", what)
        require(e.get("subtype") == k.get("subtype"), "%s: subtype is %r", what, e.get("subtype"))
        want = "none" if not it["type"] else it["type"].get("enum") or it["type"]["text"]
        require(attr(e, "type") == want, "%s: type is %r, not %r", what, e.get("type"), want)
        w, l, r = k.get("width"), k.get("length"), k.get("radius")
        if r is not None:
            if w is not None or l is not None:
                labels.add("radius and size")
            w = l = None
        elif w is not None and l is None:
            labels.add("only width")
            l = 0
        elif l is not None and w is None:
            labels.add("only length")
            w = 0
        numbers(e, {"hdg": k.get("hdg", 0), "validLength": k.get("validLength"), "width": w, "length": l, "radius": r}, {"hdg": 0}, what)
        reps = e.findall("repeat")
        require(len(reps) == len(it["repeats"]), "%s was repeated %d times, %d are written", what, len(it["repeats"]), len(reps))
        for x, y in zip(reps, sorted(it["repeats"], key=lambda r: bool(r.get("late")))):
            o = y["k"]
            h = k.get("height", 0)
            z = k.get("zOffset", 0)
            want = {"length": y["length"], "distance": y["distance"], "s": o.get("sStart", it["s"]), "tStart": o.get("tStart", it["t"]),
                    "tEnd": o.get("tEnd", it["t"]), "heightStart": o.get("heightStart", h), "heightEnd": o.get("heightEnd", h),
                    "zOffsetStart": o.get("zOffsetStart", z), "zOffsetEnd": o.get("zOffsetEnd", z)}
            for n in ("widthStart", "widthEnd", "lengthStart", "lengthEnd", "radiusStart", "radiusEnd"):
                want[n] = o.get(n)
            numbers(x, want, {}, what + ", a repeat with %s" % o)
            if y.get("late"):
                labels.add("late repeat")
            for n, v in x.attrib.items():
                tonum(v, "the %s of a repeat" % n)
            labels.add("repeat")
            if "height" not in k and not ("heightStart" in o and "heightEnd" in o):
                labels.add("repeat without height")
        if len(reps) > 1:
            labels.add("several repeats")


PROP = C17()
