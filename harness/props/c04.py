"""Equivalent definitions give the same geometry; incomplete and contradictory ones are rejected."""
import math

from hypothesis import strategies as st

import curves
import shapes
from base import Info, Prop
from client import Prog
from xmlobs import parse, require


VALUE = shapes.pick(0, 1, -1, 0.5, floats=st.floats(-10, 10))


@st.composite
def equivalents(draw):
    kind = draw(st.sampled_from(["arc", "spiral", "poly"]))
    out = {"what": kind, "pose": draw(shapes.POSE)}
    if kind == "arc":
        k, a = draw(shapes.CURV), draw(shapes.TURN)
        out["defs"] = [{"kind": "arc", "curvature": k, "length": a / abs(k)}, {"kind": "arc", "curvature": k, "angle": math.copysign(a, k)},
                       {"kind": "arc", "curvature": k, "angle": math.copysign(a, -k)}]
    elif kind == "spiral":
        k0, k1 = draw(shapes.CURV), draw(shapes.CURV)
        zero = draw(st.sampled_from(["", "", "start", "end", "opposite"]))
        if zero != "opposite":
            k1 = math.copysign(k1, k0)
        if zero == "start":
            k0 = 0
        if zero == "end":
            k1 = 0
        m = max(abs(k0), abs(k1))
        L = min(draw(shapes.TURN) / m, 500.0)
        out["defs"] = [{"kind": "spiral", "curvstart": k0, "curvend": k1, "length": L}]
        if abs(k0 + k1) > 0.05 * m:
            out["defs"].append({"kind": "spiral", "curvstart": k0, "curvend": k1, "angle": (k0 + k1) / 2 * L})
            out["defs"].append({"kind": "spiral", "curvstart": k0, "curvend": k1, "angle": -(k0 + k1) / 2 * L})
        if abs(k1 - k0) > 1e-3 * m:
            out["defs"].append({"kind": "spiral", "curvstart": k0, "curvend": k1, "cdot": (k1 - k0) / L})
    else:
        g = draw(shapes.poly().filter(lambda g: g["prange"] == "normalized"))
        L = curves.poly_length(g["c"])
        scaled = [v / L ** (i % 4) for i, v in enumerate(g["c"])]
        out["defs"] = [dict(g, defaulted=True), g, {"kind": "poly", "c": scaled, "prange": "arcLength", "length": L}]
    out["order"] = draw(st.permutations(range(len(out["defs"]))))
    return out


@st.composite
def wrong(draw):
    kind = draw(st.sampled_from(["arc none", "arc both", "arc straight", "spiral none", "spiral over", "poly", "planview"]))
    v = [draw(VALUE) for _ in range(4)]
    out = {"what": kind, "v": v}
    if kind == "spiral over":
        out["given"] = sorted(draw(st.sets(st.sampled_from(["length", "angle", "cdot"]), min_size=2)))
    if kind == "planview":
        out["given"] = sorted(draw(st.sets(st.sampled_from([0, 1, 2]), min_size=1, max_size=2)))
    if kind == "arc straight":
        out["given"] = draw(st.sampled_from(["length", "angle"]))
    if kind in ("arc none", "arc both"):
        out["v"][0] = draw(shapes.CURV)
    return out


class C04(Prop):
    quick, thorough = 4000, 200000
    rule = ("Either two to four definitions of one curve (arc by length or by angle of either sign; spiral by length, angle "
            "or cdot; polynomial in normalized and arc length range), compared at the API and in a written road, or an "
            "incomplete or contradictory definition (zero being a value like any other). All but the repeated "
            "rejections are non-trivial.")
    assumptions = ["Spirals given by an angle do not have opposite curvatures (nor nearly); cdot needs different curvatures."]
    must_cover = ("arc", "spiral", "poly", "arc none", "arc both", "arc straight", "spiral none", "spiral over", "planview")

    def strategy(self):
        return st.one_of(equivalents(), equivalents(), wrong())

    def check(self, c, sut):
        if "defs" not in c:
            return self.rejected(c, sut)
        p = Prog()
        asked = []
        for i in c["order"]:
            g = c["defs"][i]
            o = shapes.build(p, g)
            pv = p.new("PlanView", *c["pose"])
            pv.call("add_geometry", o)
            pv.call("adjust_geometries")
            asked.append((g, o.ask("get_end_data", *c["pose"]), pv.xml(), pv.ask("get_total_length")))
        res = sut.run(p)
        first = None
        for g, e, x, t in asked:
            got = curves.pose(res[e], "get_end_data")
            w = curves.Geom(parse(res[x])[0])
            scale = max([w.length] + [abs(v) for v in c["pose"]])
            curves.same_pose(got, w.end(), scale, "the end of the geometry as written and as asked for")
            if first is None:
                first = (g, got, w)
                continue
            curves.same_pose(first[1], got, scale, "the ends of %s and %s" % (first[0], g))
            require(abs(first[2].length - w.length) <= 1e-6 + 1e-8 * w.length, "%s is written with length %r, and %s with %r",
                    first[0], first[2].length, g, w.length)
        return Info(True, [c["what"]])

    def rejected(self, c, sut):
        v = c["v"]
        p = Prog()
        k = c["what"]
        want = "NotEnoughInputArguments"
        if k == "arc none":
            r = p.try_new("Arc", v[0])
        elif k == "arc both":
            r, want = p.try_new("Arc", v[0], length=v[1], angle=v[2]), "ToManyOptionalArguments"
        elif k == "arc straight":
            r, want = p.try_new("Arc", 0, **{c["given"]: v[1]}), "ValueError"
        elif k == "spiral none":
            r = p.try_new("Spiral", v[0], v[1])
        elif k == "spiral over":
            r, want = p.try_new("Spiral", v[0], v[1], **dict(zip(c["given"], [v[2], v[3], v[0]]))), "ToManyOptionalArguments"
        elif k == "poly":
            r, want = p.try_new("ParamPoly3", *(v + v), prange="arcLength"), "ValueError"
        else:
            r = p.try_new("PlanView", **{["x_start", "y_start", "h_start"][i]: v[i] for i in c["given"]})
        exc = sut.run(p).exc(r)
        require(exc is not None, "%s was accepted (%s)", k, c)
        require(want in exc, "%s was rejected with %s, not %s", k, exc[0], want)
        return Info(True, [k])


PROP = C04()
