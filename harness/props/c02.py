"""The end point, heading and length of a geometry are those of the curve it defines, on every call."""
from hypothesis import strategies as st

import curves
import shapes
from base import Info, Prop
from client import Prog
from xmlobs import require, tonum


@st.composite
def euler(draw):
    g = draw(shapes.spiral())
    return {"kind": "euler", "k0": g["curvstart"], "k1": g["curvend"], "length": shapes.length(g),
            "part": draw(st.sampled_from([1, 1, 0, 0.5, 0.25, 0.9])), "from": draw(st.sampled_from([0, 0, 0.01, -0.05])),
            "args": draw(st.lists(st.sampled_from([4, 4, 4, 1, 2, 3]), min_size=1, max_size=2))}


class C02(Prop):
    quick, thorough = 6000, 300000
    rule = ("One geometry (Line; Arc by length or angle; Spiral by length, angle or cdot, with curvatures that are free, "
            "of one sign, equal, or apart by 1e-3 to 1e-17; regular ParamPoly3 in both ranges, also rotated and shifted; "
            "EulerSpiral up to a part of its length) and 1-4 start poses, each asked for its end, with reverse questions "
            "in between. Non-trivial: not a line.")
    assumptions = ["Reference: 16-node Gauss-Legendre integration of the heading; tolerance 5e-6 + 1e-9 of the size in "
                   "position and length, 1e-7 in heading modulo whole turns.",
                   "Arc angles of either sign turn the way the curvature says, which is all the written file holds.",
                   "Spirals given by an angle have curvatures of one sign (or one zero)."]
    must_cover = ("spiral near-equal curvatures", "arc by angle", "spiral by cdot", "poly arcLength", "euler")

    def strategy(self):
        g = st.one_of(shapes.line(), shapes.arc(), shapes.spiral(), shapes.spiral(), shapes.poly(tangent=False), euler())
        ask = st.tuples(st.sampled_from(["end", "end", "reverse"]), shapes.POSE).map(list)
        return st.fixed_dictionaries({"geom": g, "asks": st.lists(ask, min_size=1, max_size=4)})

    def check(self, c, sut):
        g = c["geom"]
        p = Prog()
        if g["kind"] == "euler":
            return self.euler(c, sut)
        o = shapes.build(p, g)
        asked = []
        for how, pose in c["asks"]:
            if how == "end":
                asked.append((pose, o.ask("get_end_data", *pose), o.ask("get_end_data", *pose)))
            else:
                o.call("get_start_data", *pose)
        pose = c["asks"][0][1]
        asked.append((pose, o.ask("get_end_data", *pose), o.ask("get_end_data", *pose)))
        res = sut.run(p)
        L = shapes.length(g)
        for pose, a, b in asked:
            va, vb = res[a], res[b]
            require(va == vb, "the same question gave %r, then %r", va, vb)
            require(isinstance(va, list) and len(va) == 4, "get_end_data returned %r", va)
            want = shapes.end(g, *pose)
            scale = max([L] + [abs(v) for v in pose + list(want)])
            curves.same_pose(want, curves.pose(va, "get_end_data"), scale, "the end of the curve and get_end_data")
            got = tonum(va[3], "the length")
            require(abs(got - L) <= 1e-6 + 1e-8 * L, "the curve has length %r, get_end_data says %r", L, got)
        return Info(g["kind"] != "line", [shapes.label(g)])

    def euler(self, c, sut):
        g = c["geom"]
        p = Prog()
        e = p.new("EulerSpiral.createFromLengthAndCurvature", g["length"], g["k0"], g["k1"])
        s = g["part"] * g["length"]
        asked = []
        for n, (_, pose) in enumerate(c["asks"]):
            args = [pose[0], pose[1], g["k0"] + g.get("from", 0), pose[2]]  # from another curvature with the same rate
            args = args[:g.get("args", [4])[n % len(g.get("args", [4]))]]  # what is left out is 0
            full = args + [0] * (4 - len(args))
            asked.append(([full[0], full[1], full[3]], full[2], e.ask("calc", s, *args)))
        res = sut.run(p)
        for pose, k0, a in asked:
            k = k0 + (g["k1"] - g["k0"]) * g["part"]
            want = curves.clothoid(*pose, k0, k, s)
            curves.same_pose(want, curves.pose(res[a], "calc"), max([s] + [abs(v) for v in pose]), "the spiral and calc")
        return Info(True, ["euler"])


PROP = C02()
