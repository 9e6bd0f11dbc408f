"""Junctions written by hand: normal roads, and connecting roads between pairs of them, with lane offsets."""
from hypothesis import strategies as st

import nets
import shapes
from client import E


@st.composite
def crossing(draw, max_conn=4, big=True):
    count = shapes.count if big else (lambda most, rarely, least=0: st.integers(least, most))
    back = draw(st.integers(0, 2)) == 0
    n = draw(count(4, 14, 1 if back else 2))
    lanes = count(4, 12)
    roads = []
    for i in range(n):
        roads.append({"sections": [[draw(lanes), draw(lanes)] for _ in range(draw(count(3, 8, 1)))]})
    conns = []
    for _ in range(draw(count(max_conn, 12, 1))):
        a = draw(st.integers(0, n - 1))
        b = (a + draw(st.integers(0 if back else 1, n - 1))) % n  # the same road: a loop, or a turn
        conns.append({"ends": [[a, draw(st.sampled_from(nets.ENDS))], [b, draw(st.sampled_from(nets.ENDS))]],
                      "one_sided": draw(st.booleans()), "side": draw(st.sampled_from([0, 1])),
                      "picks": [draw(st.integers(0, 12)) for _ in range(4)],
                      "inner": [[draw(lanes), draw(lanes)] for _ in range(draw(count(1, 6)))],
                      "offset": draw(st.booleans())})
    return {"roads": roads, "conns": conns, "order": draw(nets.random_order()),
            "junction": draw(st.sampled_from([0, 1, 2, 5, 100])), "base": draw(st.sampled_from([0, 1, 100])),
            "ids": draw(st.sampled_from(["ints", "ints", "links as text", "texts", "lookalikes", "prefixes", "prefixes as text"]))}


def decode(c):
    """Every road gets its lane counts, every connecting road lanes that exist in the roads it touches, and offsets.

    An end of a connecting road: road index, contact point, whether both run the same way, lane offset."""
    conns = []
    for q in c["conns"]:
        counts, offsets, ends = [], [], []
        for at, (i, contact) in zip(("start", "end"), q["ends"]):
            have = c["roads"][i]["sections"][0 if contact == "start" else -1]
            same = at != contact
            there = have if same else have[::-1]  # lanes there that continue left and right lanes of the connecting road
            ends.append((i, contact, same))
            counts.append(there)
        k = q["picks"]
        if q["one_sided"]:
            side = q["side"]
            lens = []
            for e in (0, 1):
                lens.append(k[e] % (counts[e][side] + 1))
            if not q["inner"]:
                lens = [min(lens)] * 2
            lane = [[0, 0], [0, 0]]
            for e in (0, 1):
                lane[e][side] = lens[e]
                room = counts[e][side] - lens[e]
                off = k[2 + e] % (room + 1) if q["offset"] and ends[e][2] and lens[e] else 0
                offsets.append(off if side == 0 else -off)
        else:
            lane = [[min(k[e], counts[e][0]), min(k[2 + e], counts[e][1])] for e in (0, 1)]
            if not q["inner"]:
                lane = [[min(lane[0][s], lane[1][s]) for s in (0, 1)]] * 2
            offsets = [0, 0]
        secs = [lane[0]] + q["inner"] + [lane[1]] if q["inner"] else [lane[0]]
        conns.append({"sections": secs, "ends": ends, "offsets": offsets})
    return conns


def build(p, c, conns):
    """-> (normal roads, connecting roads), ids as given"""
    texts = c["ids"] == "texts"
    n = len(c["roads"])

    def rid(i):
        v = c["base"] + i
        if c["ids"].startswith("prefixes"):
            return nets.PREFIXES[i % len(nets.PREFIXES)]
        if c["ids"] == "lookalikes":
            return nets.LOOKALIKES[i] if i < len(nets.LOOKALIKES) else "x%d" % i
        return "r%d" % v if texts else v

    def in_link(i):
        return str(rid(i)) if c["ids"].endswith("as text") else rid(i)

    def road(i, secs, pose, junction):
        pv = p.new("PlanView", *pose) if pose else p.new("PlanView")
        pv.call("add_geometry", p.new("Line", 30))
        ls = p.new("Lanes")
        for k, (nl, nr) in enumerate(secs):
            sec = p.new("LaneSection", 30.0 * k / len(secs), p.new("Lane"))
            for _ in range(nl):
                sec.call("add_left_lane", p.new("Lane", a=3))
            for _ in range(nr):
                sec.call("add_right_lane", p.new("Lane", a=3))
            ls.call("add_lanesection", sec)
        return p.new("Road", rid(i), pv, ls, road_type=junction)

    normal = [road(i, r["sections"], [100 * i, 0, 0], -1) for i, r in enumerate(c["roads"])]
    ends = sorted({(i, e) for q in conns for i, e, _ in q["ends"]})
    for i, e in ends:
        normal[i].call("add_successor" if e == "end" else "add_predecessor", E("ElementType.junction"), c["junction"])
    conn = []
    for k, q in enumerate(conns):
        r = road(n + k, q["sections"], None, c["junction"])
        for f, (i, e, _), off in zip(("add_predecessor", "add_successor"), q["ends"], q["offsets"]):
            kw = {"lane_offset": off} if off else {}
            r.call(f, E("ElementType.road"), in_link(i), E("ContactPoint." + e), **kw)
        conn.append(r)
    return normal, conn, rid


def lane_ids(counts):
    return list(range(1, counts[0] + 1)) + [-v for v in range(1, counts[1] + 1)]


def linked(q, end, lane):
    """the lane that a lane at an end (0 start, 1 end) of a connecting road continues in"""
    same = q["ends"][end][2]
    return (lane if same else -lane) + q["offsets"][end]


def labels(c, conns):
    out = {"%s contact" % ("same direction" if same else "opposite") for q in conns for _, _, same in q["ends"]}
    if any(o for q in conns for o in q["offsets"]):
        out.add("lane offset")
    if any(q["sections"][0][0] != q["sections"][0][1] for q in conns):
        out.add("asymmetric")
    if any(len(q["sections"]) > 1 for q in conns):
        out.add("several sections")
    if any(not same and q["sections"][0 if e == 0 else -1][0] != q["sections"][0 if e == 0 else -1][1]
           for q in conns for e, (_, _, same) in enumerate(q["ends"])):
        out.add("asymmetric and opposite")
    for q in conns:
        (a, ea, _), (b, eb, _) = q["ends"]
        if a == b:
            out.add("turn" if ea == eb else "loop")
    return sorted(out)
