"""The order in which roads are added does not matter."""
import cmath
import math

from hypothesis import strategies as st

import anynet
import curves
import lanes
import nets
import shapes
from base import Info, Prop
from client import Prog
from xmlobs import canon, one, parse, require


def lane_facts(road_el):
    """lanes without regard to the order of the two links of a lane"""
    secs = lanes.sections(road_el)
    return [(s.s, [(l.id, tuple(l.width), l.links["predecessor"], l.links["successor"]) for l in s.left + [s.center] + s.right])
            for s in secs]


def same_roads(a, b, scale, moved=False, what=""):
    """the same roads, lanes and links; plan views equal up to tolerance, after moving the whole of b when `moved`"""
    ra, rb = nets.roads_by_id(a), nets.roads_by_id(b)
    require(sorted(ra) == sorted(rb), "%s: roads %s and %s", what, sorted(ra), sorted(rb))
    rot, shift = 0.0, None
    for i in ra:
        ka, kb = [sorted(canon(e) for e in one(r[i], "link")) for r in (ra, rb)]
        require(ka == kb, "%s: links of road %s: %s and %s", what, i, ka, kb)
        la, lb = lane_facts(ra[i]), lane_facts(rb[i])
        require(la == lb, "%s: lanes of road %s: %s and %s", what, i, la, lb)
        ga, gb = curves.planview(ra[i]), curves.planview(rb[i])
        require(len(ga) == len(gb), "%s: road %s has %d and %d geometries", what, i, len(ga), len(gb))
        for x, y in zip(ga, gb):
            require((x.kind, x.par) == (y.kind, y.par) and abs(x.length - y.length) < 1e-9 * max(1, x.length) and
                    abs(x.s - y.s) < 1e-9 * max(1, x.s), "%s: geometries of road %s differ", what, i)
            z = complex(y.x, y.y)
            if moved and shift is None:
                rot = x.h - y.h
                shift = complex(x.x, x.y) - z * cmath.exp(1j * rot)
            if moved:
                z = z * cmath.exp(1j * rot) + shift
            curves.same_pose((x.x, x.y, x.h), (z.real, z.imag, y.h + rot), scale, "%s: road %s" % (what, i), pos_tol=4e-5, ang_tol=2e-6)
    ja, jb = [canon(j) for j in a.findall("junction")], [canon(j) for j in b.findall("junction")]
    require(ja == jb, "%s: junctions differ", what)


def size(doc):
    v = [1.0]
    for r in doc.findall("road"):
        for g in curves.planview(r):
            v += [abs(g.x), abs(g.y), g.length]
    return max(v)


class C07(Prop):
    quick, thorough = 1300, 60000
    rule = ("A network, row or ring as C05, with lanes, or a highway of splits and merges with lane offsets (as C13), built twice with its roads added in two orders. "
            "Non-trivial: the orders differ and there are at least three roads.")
    assumptions = ["As C05. Without an explicit start the two results are compared after moving one onto the other."]
    must_cover = ("explicit start", "no explicit start", "via junction", "ring", "highway", "chain")

    def strategy(self):
        @st.composite
        def case(draw):
            return dict(draw(anynet.network(min_steps=2, max_steps=6, max_extra=1, dead=True)), orders=[draw(nets.random_order()), draw(nets.random_order())])
        return case()

    def check(self, c, sut):
        net = anynet.decode(c)
        orders = [nets.permutation(len(net.roads), o) for o in c["orders"]]
        docs = []
        p = Prog()
        xs = []
        for o in orders:
            odr, _ = nets.build(p, net, o)
            xs.append(odr.xml())
        res = sut.run(p)
        a, b = [parse(res[x]) for x in xs]
        fixed = any(r["pose"] is not None for r in net.roads)
        scale = max(size(a), size(b)) * (1 + len(net.roads))
        same_roads(a, b, scale, moved=not fixed, what="added in orders %s and %s" % tuple(orders))
        labels = ["explicit start" if fixed else "no explicit start"] + anynet.labels(c, net)
        return Info(orders[0] != orders[1] and len(net.roads) > 2, labels)


PROP = C07()
