"""Lanes that are linked across a joint touch there."""
import math

from hypothesis import strategies as st

import lanes
import nets
import shapes
from base import Info, Prop
from client import Prog
from xmlobs import parse, require

WIDTH = shapes.pick(3, 3.5, 2, floats=st.floats(0.1, 8))


@st.composite
def plain(draw):
    """a network as in C05 whose lanes have widths of their own, equal on both sides of every joint"""
    c = draw(nets.network(min_steps=1, max_steps=5, max_extra=1, max_lanes=2))

    def widths(n):
        return [draw(WIDTH) for _ in range(n)]

    def more(v):
        return [[widths(a), widths(b)] for a, b in v]
    r = c["root"]
    r.update(left=widths(r["left"]), right=widths(r["right"]), more=more(r["more"]))
    for s in c["steps"]:
        s["more"] = more(s["more"])
        if s.get("via"):
            s["via"]["more"] = more(s["via"]["more"])
    return {"net": c, "order": draw(nets.random_order())}


@st.composite
def highway(draw):
    """splits and merges as in the repository's examples: 3 m lanes on one side, all roads running the same way,
    connecting roads of fewer lanes that are shifted by lane offsets"""
    small = st.integers(0, 5)
    return {"side": draw(st.sampled_from(["left", "right", "right"])),
            "ids": draw(st.sampled_from(["0..", "0..", "text", "50 down", "link text", "lookalikes"])), "first junction": draw(st.sampled_from([1, 1, 0, 50])),
            "root": {"lanes": draw(st.integers(1, 4)), "geoms": draw(nets.geoms())},
            "steps": draw(st.lists(st.fixed_dictionaries({
                "at": st.integers(0, 12), "picks": st.lists(small, min_size=4, max_size=4),
                "conn": nets.geoms(), "road": nets.geoms()}), min_size=1, max_size=5)),
            "pose": draw(st.one_of(st.none(), shapes.POSE)), "pose_at": draw(small), "order": draw(nets.random_order())}


def highway_net(c):
    net = nets.Net()
    side = c["side"]
    sign = 1 if side == "left" else -1
    ids = c.get("ids", "0..")
    net.linktext = ids == "link text"

    def add(gs, n, junction):
        sec = {"s": 0, "left": 0, "right": 0}
        sec[side] = n
        i = len(net.roads)
        net.roads.append({"id": {"text": "r%d" % i, "50 down": 50 - i, "lookalikes": nets.LOOKALIKES[i % 24]}.get(ids, i), "junction": junction, "geoms": gs, "pose": None, "sections": [sec]})
        return len(net.roads) - 1

    add(c["root"]["geoms"], c["root"]["lanes"], -1)
    ends = [(0, "start"), (0, "end")]
    nj = c.get("first junction", 1)
    for s in c["steps"]:
        i, e = ends[s["at"] % len(ends)]
        f = nets.OTHER[e]
        if (i, e) in net.junction_ends:
            jid = net.junction_ends[i, e]
        else:
            jid = net.junction_ends[i, e] = nj
            nj += 1
        here = net.roads[i]["sections"][0][side]
        n = 1 + s["picks"][0] % here
        k = add(s["conn"], n, jid)
        net.roads[k]["offset_" + f] = sign * (s["picks"][1] % (here - n + 1))
        extra = s["picks"][2] % 3
        j = add(s["road"], n + extra, -1)
        net.roads[k]["offset_" + e] = sign * (s["picks"][3] % (extra + 1))
        net.joints += [(k, f, i, e), (k, e, j, f)]
        net.junction_ends[j, f] = jid
        ends += [(j, f), (j, e)]
    if c["pose"]:
        net.roads[c["pose_at"] % len(net.roads)]["pose"] = c["pose"]
    return net


def bounds(sec):
    """lane id -> (inner, outer) t at the contact, widths being constant"""
    out = {}
    for sign, ls in ((1, sec.left), (-1, sec.right)):
        t = 0.0
        for l in sorted(ls, key=lambda l: abs(l.id)):
            require(l.id * sign > 0, "lane %d is on the wrong side", l.id)
            out[l.id] = (t, t + sign * l.width[0])
            t += sign * l.width[0]
    return out


def world(pose, t):
    x, y, h = pose
    return x - t * math.sin(h), y + t * math.cos(h)


class C13(Prop):
    quick, thorough = 1500, 60000
    rule = ("A network as C05 with lanes of any constant widths, or a highway of splits and merges (3 m lanes on one side, "
            "all roads running the same way, connecting roads with lane offsets at both of their ends, several per road "
            "end); each in any order. Every lane link across a joint is followed. Non-trivial: at least two lane links, "
            "and a reversed contact or an offset.")
    assumptions = ["With lane offsets, lanes are 3 m wide and both roads run the same way (see known findings).",
                   "Tolerance 2e-5 + 1e-9 of the size of the network."]
    must_cover = ("lane offset", "opposite contact", "offset at both ends", "different widths")

    def strategy(self):
        return st.one_of(plain(), highway())

    def check(self, c, sut):
        net = nets.decode(c["net"]) if "net" in c else c.get("given") and given(c["given"]) or highway_net(c)
        p = Prog()
        order = nets.permutation(len(net.roads), c["order"])
        odr, _ = nets.build(p, net, order)
        x = odr.xml()
        byid = nets.roads_by_id(parse(sut.run(p)[x]))
        pl = {i: nets.Placed(e) for i, e in byid.items()}
        secs = {i: lanes.sections(e) for i, e in byid.items()}
        tol = 2e-5 + 1e-9 * max(q.scale for q in pl.values()) * (1 + len(net.roads))
        followed = 0
        widths = set()
        for a, ea, b, eb in net.joints:
            ends = [(a, ea, b, eb)] + ([(b, eb, a, ea)] if net.normal(a) else [])
            for i, ei, j, ej in ends:
                ri, rj = str(net.roads[i]["id"]), str(net.roads[j]["id"])
                bi, bj = [bounds(lanes.at_end(secs[r], e)) for r, e in ((ri, ei), (rj, ej))]
                for l, lane in lanes.at_end(secs[ri], ei).lanes.items():
                    to = lane.links["successor" if ei == "end" else "predecessor"]
                    require(to in bj, "lane %d of road %s leads to lane %s of road %s, which has %s", l, ri, to, rj, sorted(bj))
                    for q, which in ((0, "inner"), (1, "outer")):
                        u, v = world(pl[ri].at(ei), bi[l][q]), world(pl[rj].at(ej), bj[to][q])
                        d = math.dist(u, v)
                        require(d <= tol + 2e-6 * abs(bi[l][q]), "lane %d of road %s leads to lane %d of road %s, but their %s borders are %.3g apart",
                                l, ri, to, rj, which, d)
                    followed += 1
                    widths.add(lane.width[0])
        labels = []
        offs = [[net.roads[i].get("offset_" + e, 0) for e in nets.ENDS] for i in range(len(net.roads))]
        if any(any(o) for o in offs):
            labels.append("lane offset")
        if any(all(o) for o in offs):
            labels.append("offset at both ends")
        if any(ea == eb for _, ea, _, eb in net.joints):
            labels.append("opposite contact")
        if len(widths) > 1:
            labels.append("different widths")
        return Info(followed > 1 and ("lane offset" in labels or "opposite contact" in labels), labels)


def given(g):
    """a network written out, for the recorded findings"""
    net = nets.Net()
    net.roads = g["roads"]
    net.joints = [tuple(j) for j in g["joints"]]
    net.junction_ends = {(i, e): j for i, e, j in g["junction_ends"]}
    return net


PROP = C13()
