"""Going backwards along a geometry undoes going forwards."""
import math

from hypothesis import strategies as st

import curves
import shapes
from base import Info, Prop
from client import Prog
from xmlobs import require, tonum


class C03(Prop):
    quick, thorough = 6000, 300000
    rule = ("One geometry and a start pose; its true end is computed independently, and get_start_data is asked from "
            "there with the reversed heading, on a fresh object or after other calls; then get_end_data of the answer. "
            "Non-trivial: not a line.")
    assumptions = ["Headings passed to and returned by get_start_data point backwards along the curve (the convention of "
                   "Line, Arc, Spiral and of the placement of roads from their end).",
                   "Tolerance 5e-6 + 1e-9 of the size, headings 1e-7 modulo whole turns."]
    must_cover = ("fresh object", "used object", "arc by angle", "poly normalized", "poly arcLength")

    def strategy(self):
        g = st.one_of(shapes.line(), shapes.arc(), shapes.spiral(), shapes.poly(), shapes.poly(tangent=False))
        before = st.lists(st.tuples(st.sampled_from(["get_end_data", "get_start_data"]), shapes.POSE).map(list), max_size=3)
        return st.fixed_dictionaries({"geom": g, "pose": shapes.POSE, "before": before})

    def check(self, c, sut):
        g, pose = c["geom"], c["pose"]
        p = Prog()
        o = shapes.build(p, g)
        for f, q in c["before"]:
            o.call(f, *q)
        x, y, h = shapes.end(g, *pose)
        a = o.ask("get_start_data", x, y, h + math.pi)
        a2 = o.ask("get_start_data", x, y, h + math.pi)
        fwd = o.ask("get_end_data", *pose)
        res = sut.run(p)
        va = res[a]
        require(va == res[a2], "the same question gave %r, then %r", va, res[a2])
        require(isinstance(va, list) and len(va) == 4, "get_start_data returned %r", va)
        L = shapes.length(g)
        scale = max([L] + [abs(v) for v in pose + [x, y, h]])
        sx, sy, sh = curves.pose(va, "get_start_data")
        curves.same_pose(tuple(pose), (sx, sy, sh - math.pi), scale, "the start, and get_start_data from the end")
        got = tonum(va[3], "the length")
        require(abs(got - L) <= 1e-6 + 1e-8 * L, "the curve has length %r, get_start_data says %r", L, got)
        curves.same_pose((x, y, h), curves.pose(res[fwd], "get_end_data"), scale, "the end, and get_end_data from the start")
        return Info(g["kind"] != "line", [shapes.label(g), "used object" if c["before"] else "fresh object"])


PROP = C03()
