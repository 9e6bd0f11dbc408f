"""Connected roads join."""
import math

from hypothesis import strategies as st

import curves
import nets
import shapes
from base import Info, Prop
from client import E, Prog
from xmlobs import require


def backwards(gs):
    out = []
    for g in reversed(gs):
        g = dict(g)
        if g["kind"] == "arc":
            g["curvature"] = -g["curvature"]
        if g["kind"] == "spiral":
            g["curvstart"], g["curvend"] = -g["curvend"], -g["curvstart"]
        out.append(g)
    return out


@st.composite
def ring(draw):
    """equal roads that each turn by a whole turn over their number: the chain closes; some run the other way, and some
    are connecting roads"""
    n = draw(st.integers(1, 6))
    turn = 2 * math.pi / max(2, n) * draw(st.sampled_from([1, -1]))
    r = draw(shapes.pick(10, 50, floats=st.floats(5, 200)))
    gs = [{"kind": "arc", "curvature": math.copysign(1 / r, turn), "length": abs(turn) * r}]
    if draw(st.booleans()):
        gs.insert(draw(st.integers(0, 1)), {"kind": "line", "length": draw(st.sampled_from([5, 20, 100]))})
    if draw(st.booleans()):
        # a spiral out and back adds no turn
        k = draw(st.sampled_from([0.02, -0.01]))
        gs = [{"kind": "spiral", "curvstart": 0, "curvend": k, "length": 10},
              {"kind": "spiral", "curvstart": -k, "curvend": 0, "length": 10}] + gs
    if n == 1:
        gs = gs + [dict(g) for g in gs]  # both halves of the ring
    return {"ring": {"geoms": gs, "flipped": [draw(st.booleans()) for _ in range(n)],
                     "via": [draw(st.booleans()) for _ in range(n)], "junction": draw(st.sampled_from([0, 1, 2, 10, 100]))},
            "pose": draw(st.one_of(st.none(), shapes.POSE)), "pose_at": draw(st.integers(0, 5)), "order": draw(nets.random_order())}


def ring_net(c):
    net = nets.Net()
    gs, flipped = c["ring"]["geoms"], c["ring"]["flipped"]
    n = len(flipped)
    via = []
    for i in range(1, n):  # not the first, and never two in a row
        via += [i] if c["ring"]["via"][i] and i - 1 not in via else []
    jid = {i: c["ring"]["junction"] + k for k, i in enumerate(via)}
    for i, f in enumerate(flipped):
        net.roads.append({"id": i + 1, "junction": jid.get(i, -1), "geoms": backwards(gs) if f else gs, "pose": None,
                          "sections": [{"s": 0, "left": 1, "right": 1}]})
    net.roads[c["pose_at"] % n]["pose"] = c["pose"]
    for i in range(n):
        j = (i + 1) % n
        a, b = (i, "start" if flipped[i] else "end"), (j, "end" if flipped[j] else "start")
        if not net.normal(j):
            a, b = b, a
        net.joints.append(a + b)
        if not net.normal(a[0]):
            net.junction_ends[b] = jid[a[0]]
    return net


def check_joints(net, pl, what="joint"):
    size = max(q.scale for q in pl.values())
    scale = size * (1 + len(net.roads))
    for a, ea, b, eb in net.joints:
        pa, pb = pl[str(net.roads[a]["id"])], pl[str(net.roads[b]["id"])]
        curves.same_pose(nets.outward(pa.at(ea), ea), nets.inward(pb.at(eb), eb), scale,
                         "%s of the %s of road %s with the %s of road %s" % (what, ea, net.roads[a]["id"], eb, net.roads[b]["id"]),
                         pos_tol=2e-5, ang_tol=1e-6)


def by_hand(odr, refs, net, move=None):
    """each road placed against one that has its place (move: where the first one is moved to before that)"""
    first = ([i for i, r in enumerate(net.roads) if r["pose"] is not None] or [0])[0]
    if move:
        refs[first].call("planview.set_start_point", *move)
    refs[first].call("planview.adjust_geometries")
    done = {first}
    while True:
        for a, ea, b, eb in net.joints + [j[2:] + j[:2] for j in net.joints]:
            if a in done and b not in done:
                odr.call("adjust_road_wrt_neighbour", net.roads[b]["id"], net.roads[a]["id"], E("ContactPoint." + ea),
                         "predecessor" if eb == "start" else "successor")
                done.add(b)
                break
        else:
            return


class C05(Prop):
    quick, thorough = 1600, 80000
    rule = ("A network grown from one road by 1-6 steps, each hanging a road on any end of any road, by its start or end, "
            "directly or through a connecting road of a junction (run either way), or a row of 7-25 roads, or a closed ring of 1-6 roads of which "
            "some run backwards and some are connecting roads; added in any order, the explicit start at any road; sometimes placed one by one with adjust_road_wrt_neighbour, also after the network was placed elsewhere. "
            "Non-trivial: at least two joints and not all end to start.")
    assumptions = ["Links are symmetric, give their contact point, and carry no lane offset.",
                   "Tolerance 2e-5 + 1e-9 of the size of the network per road."]
    must_cover = ("end-start", "start-end", "end-end", "start-start", "ring", "ring of one", "ring via junction", "via junction", "junction id of a road", "explicit start", "long row backwards", "by hand", "moved by hand")

    def strategy(self):
        @st.composite
        def case(draw):
            c = {"net": draw(nets.network(max_steps=6, dead=True)), "order": draw(nets.random_order())}
            if draw(st.integers(0, 5)) == 0:
                c["hand"] = draw(st.sampled_from(["only", "and adjusted", "after adjusting", "again"]))
                if c["hand"] in ("after adjusting", "again"):
                    c["move"] = draw(shapes.POSE)
            return c
        @st.composite
        def long(draw):
            return {"net": draw(nets.chain()), "order": draw(nets.random_order())}
        return st.one_of(case(), case(), case(), long(), ring())

    def check(self, c, sut):
        if "ring" in c:
            net = ring_net(c)
        else:
            net = nets.decode(c["net"])
        p = Prog()
        order = nets.permutation(len(net.roads), c["order"])
        odr, refs = nets.build(p, net, order, adjust=c.get("hand") in (None, "after adjusting"))
        if c.get("hand"):
            if c["hand"] == "again":
                by_hand(odr, refs, net)
            by_hand(odr, refs, net, c.get("move"))
            if c["hand"] == "and adjusted":
                odr.call("adjust_roads_and_lanes")
        x = odr.xml()
        pl = nets.placed(sut.run(p)[x])
        require(sorted(pl) == sorted(str(r["id"]) for r in net.roads), "roads %s were added, %s are written",
                [r["id"] for r in net.roads], sorted(pl))
        check_joints(net, pl)
        labels = sorted({"%s-%s" % (ea, eb) for _, ea, _, eb in net.joints})
        if "ring" in c:
            labels.append("ring of one" if len(net.roads) == 1 else "ring via junction" if net.junction_ends else "ring")
        if c.get("hand"):
            labels.append("by hand")
            if "move" in c:
                labels.append("moved by hand")
        if net.junction_ends:
            labels.append("via junction")
            if {str(j) for j in net.junction_ends.values()} & {str(r["id"]) for r in net.roads}:
                labels.append("junction id of a road")
        if any(r["pose"] for r in net.roads):
            labels.append("explicit start")
        if len(net.roads) > 6 and order[0] > order[-1]:
            labels.append("long row backwards")
        return Info(len(net.joints) > 1 and any((ea, eb) != ("end", "start") for _, ea, _, eb in net.joints), labels)


PROP = C05()
