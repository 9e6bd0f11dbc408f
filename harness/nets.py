"""Road networks as data. A network grows from one road; every step hangs another road on a free end of an
existing one, directly or through a connecting road of a junction, so that the joints form a tree."""
import math

from hypothesis import strategies as st

import curves
import shapes
from client import E, Violation
from xmlobs import attr, parse, require

ENDS = ("start", "end")
PREFIXES = [1, 10, 100, 11, 110, 1000, 2, 20, 200, 21, 12, 0, 1001, 101, 111, 201, 22, 220, 3, 30, 33, 13, 130, 31, 4, 40, 41, 14, 5, 50]  # each the beginning of others
# different ids that are easily taken for each other
LOOKALIKES = ["a", "A", "1", "01", "a ", " a", "a b", "a  b", "ab", "1.0", "001", "\u00e4", "\u00c4", "+1", "1e0", "10", "10 ", "b", "B", "1_0", "a_b", "a-b", "true", "True"]
OTHER = {"start": "end", "end": "start"}


def sections(max_extra=0, max_lanes=3):
    """lane counts of the sections behind the contact section"""
    n = st.integers(0, max_lanes)
    return st.lists(st.tuples(n, n).map(list), max_size=max_extra)


def geoms(max_size=2):
    return st.lists(shapes.simple_geom(), min_size=1, max_size=max_size)


@st.composite
def step(draw, via=None, max_extra=0, max_lanes=3, max_geoms=2, dead=False):
    through = draw(st.booleans()) if via is None else via
    s = {"at": draw(st.integers(0, 30)), "end": draw(st.sampled_from(ENDS)), "geoms": draw(geoms(max_geoms)),
         "more": draw(sections(max_extra, max_lanes))}
    if through:
        s["via"] = {"geoms": draw(geoms(max_geoms)), "flip": draw(st.booleans()),
                    "more": draw(sections(max_extra, max_lanes)), "same": draw(st.booleans())}
        if dead and draw(st.integers(0, 3)) == 0:
            s["via"]["dead"] = True  # a connecting road that leads nowhere
    return s


@st.composite
def network(draw, min_steps=1, max_steps=6, via=None, max_extra=0, max_lanes=3, max_geoms=2, pose=True, widths=False, dead=False):
    n = st.integers(0, max_lanes)
    return {
        "root": {"geoms": draw(geoms(max_geoms)), "left": draw(n), "right": draw(n),
                 "more": draw(sections(max_extra, max_lanes)), "contact": draw(st.sampled_from(ENDS))},
        "steps": draw(st.lists(step(via, max_extra, max_lanes, max_geoms, dead), min_size=min_steps, max_size=max_steps)),
        "pose": draw(st.one_of(st.none(), shapes.POSE)) if pose else None, "pose_at": draw(st.integers(0, 12)),
        "ids": draw(st.sampled_from(["0..", "1..", "1..", "50 down", "text", "link text", "prefixes", "prefix text", "lookalikes"])),
        "junctions": draw(st.sampled_from([0, 1, 1, 7, 100, 1000])),
    }


@st.composite
def chain(draw, max_lanes=2):
    """a long row of roads, so that placing them takes many rounds"""
    steps = draw(st.lists(step(None, 0, max_lanes, 1), min_size=6, max_size=12))
    times = draw(st.sampled_from([1] * 9 + [10]))
    return dict(draw(network(min_steps=0, max_steps=0, max_lanes=max_lanes, max_geoms=1)), steps=[dict(s, at=1) for s in steps * times])


class Net:
    """roads: dicts id, junction, geoms, sections [(s, left, right)], pose; joints: (i, end of i, j, end of j)."""

    def __init__(self):
        self.roads = []
        self.joints = []      # between two normal roads, or (connecting road, its end, normal road, its end)
        self.junction_ends = {}  # (road, end) -> junction id
        self.linktext = False

    def length(self, i):
        return sum(shapes.length(g) for g in self.roads[i]["geoms"])

    def normal(self, i):
        return self.roads[i]["junction"] == -1

    def section_at(self, i, end):
        return self.roads[i]["sections"][0 if end == "start" else -1]

    def joint_of(self, i, end):
        for a, ea, b, eb in self.joints:
            if (a, ea) == (i, end):
                return b, eb
            if (b, eb) == (i, end) and self.normal(a):
                return a, ea
        return None

    def connecting_at(self, i, end):
        return [(a, ea) for a, ea, b, eb in self.joints if (b, eb) == (i, end) and not self.normal(a)]


def place_sections(contact_counts, more, end, length):
    """contact_counts belong to the section at `end`; `more` follow away from it"""
    counts = [list(contact_counts)] + [list(m) for m in more]
    if end == "end":
        counts.reverse()
    n = len(counts)
    return [{"s": 0 if k == 0 else length * k / n, "left": c[0], "right": c[1]} for k, c in enumerate(counts)]


def decode(spec):
    net = Net()
    net.linktext = spec["ids"] in ("link text", "prefix text")
    total = 1 + sum(2 if s.get("via") else 1 for s in spec["steps"])

    def prefix(i):
        return PREFIXES[i] if i < len(PREFIXES) else 1000 + i

    def rid(i):
        return {"lookalikes": LOOKALIKES[i] if i < len(LOOKALIKES) else "x%d" % i, "0..": i, "1..": i + 1, "50 down": (50 if total < 50 else 500) - i, "text": "r%d" % i, "link text": i,
                "prefixes": prefix(i), "prefix text": prefix(i)}[spec["ids"]]

    def add(gs, junction, counts, more, end):
        L = sum(shapes.length(g) for g in gs)
        net.roads.append({"id": rid(len(net.roads)), "junction": junction, "geoms": gs, "pose": None,
                          "sections": place_sections(counts, more, end, L)})
        return len(net.roads) - 1

    r = spec["root"]
    add(r["geoms"], -1, (r["left"], r["right"]), r["more"], r["contact"])
    free = [(0, "start"), (0, "end")]
    junction_parts = []  # ends that belong to some junction
    nj = spec["junctions"]
    for s in spec["steps"]:
        via = s.get("via")
        options = free + junction_parts if via else free
        if not options:
            continue
        i, ei = options[s["at"] % len(options)]
        here = net.section_at(i, ei)
        counts = (here["left"], here["right"])
        e = s["end"]
        if not via:
            c2 = counts if e != ei else counts[::-1]
            j = add(s["geoms"], -1, c2, s["more"], e)
            net.joints.append((i, ei, j, e))
            free.remove((i, ei))
            free.append((j, OTHER[e]))
            continue
        if (i, ei) in net.junction_ends:
            jid = net.junction_ends[i, ei]
        else:
            jid = net.junction_ends[i, ei] = nj
            nj += 1
            free.remove((i, ei))
            junction_parts.append((i, ei))
        # the connecting road touches i with its start, or with its end when flipped
        ec = "end" if via["flip"] else "start"
        cc = counts if ec != ei else counts[::-1]
        more = via["more"] if not via.get("same") else []
        k = add(via["geoms"], jid, cc, more, ec)
        net.joints.append((k, ec, i, ei))
        if via.get("dead"):
            continue
        far = net.section_at(k, OTHER[ec])
        fc = (far["left"], far["right"])
        j = add(s["geoms"], -1, fc if e != OTHER[ec] else fc[::-1], s["more"], e)
        net.joints.append((k, OTHER[ec], j, e))
        net.junction_ends[j, e] = jid
        junction_parts.append((j, e))
        free.append((j, OTHER[e]))
    assert len(net.roads) <= total
    net.roads[spec.get("pose_at", 0) % len(net.roads)]["pose"] = spec["pose"]
    return net


def new_lanes(p, road, width=3):
    lanes = p.new("Lanes")
    refs = []
    for sec in road["sections"]:
        ls = p.new("LaneSection", sec["s"], p.new("Lane", a=0))
        made = {"left": [], "right": []}
        for side in ("left", "right"):
            ws = sec[side] if isinstance(sec[side], list) else [width] * sec[side]
            for w in ws:
                lane = p.new("Lane", a=w)
                ls.call("add_%s_lane" % side, lane)
                made[side].append(lane)
        lanes.call("add_lanesection", ls)
        refs.append(made)
    return lanes, refs


def new_road(p, road, width=3):
    pv = p.new("PlanView", *road["pose"]) if road["pose"] is not None else p.new("PlanView")
    for g in road["geoms"]:
        pv.call("add_geometry", shapes.build(p, g))
    lanes, _ = new_lanes(p, road, width)
    if road["junction"] == -1:
        return p.new("Road", road["id"], pv, lanes)
    return p.new("Road", road["id"], pv, lanes, road_type=road["junction"])


def link(p, net, refs, joints=None):
    """the symmetric links of all the joints"""
    def idof(i):
        return str(net.roads[i]["id"]) if net.linktext else net.roads[i]["id"]

    def add(i, end, *a, **k):
        refs[i].call("add_successor" if end == "end" else "add_predecessor", *a, **k)

    for (a, ea, b, eb) in net.joints if joints is None else joints:
        off = {}
        if net.roads[a].get("offset_" + ea):
            off = {"lane_offset": net.roads[a]["offset_" + ea]}
        add(a, ea, E("ElementType.road"), idof(b), E("ContactPoint." + eb), **off)
        if net.normal(a):
            add(b, eb, E("ElementType.road"), idof(a), E("ContactPoint." + ea))
    if joints is None:
        for (i, end), jid in net.junction_ends.items():
            add(i, end, E("ElementType.junction"), jid)


def build(p, net, order=None, width=3, adjust=True, name="net"):
    refs = [new_road(p, r, width) for r in net.roads]
    link(p, net, refs)
    odr = p.new("OpenDrive", name)
    for i in order or range(len(refs)):
        odr.call("add_road", refs[i])
    if adjust:
        odr.call("adjust_roads_and_lanes")
    return odr, refs


class Roads(dict):
    def __missing__(self, i):
        raise Violation("road %s is not in the document" % i)


def roads_by_id(doc):
    out = Roads()
    for r in doc.findall("road"):
        i = attr(r, "id")
        require(i not in out, "road id %s is written twice", i)
        out[i] = r
    return out


class Placed:
    """the plan view of a written road, with its first and last pose"""

    def __init__(self, el):
        self.el = el
        self.geoms = curves.planview(el)
        require(self.geoms, "the plan view of road %s is empty", el.get("id"))
        g = self.geoms[0]
        self.start = (g.x, g.y, g.h)
        self.end = self.geoms[-1].end()
        self.scale = max([1.0] + [abs(v) for g in self.geoms for v in (g.x, g.y, g.length)])

    def at(self, end):
        return self.start if end == "start" else self.end


def outward(pose, end):
    """the pose with the heading that leaves the road"""
    x, y, h = pose
    return (x, y, h) if end == "end" else (x, y, h + math.pi)


def inward(pose, end):
    x, y, h = pose
    return (x, y, h) if end == "start" else (x, y, h + math.pi)


def placed(text):
    doc = parse(text)
    out = Roads()
    for i, r in roads_by_id(doc).items():
        out[i] = Placed(r)
    return out


def random_order(n_max=20):
    """a permutation, as a list of picks"""
    some = st.lists(st.integers(0, 30), min_size=n_max, max_size=n_max)
    return st.one_of(some, some, some, st.just([-1]))  # or backwards


def permutation(n, picks):
    picks = picks or [0]
    left = list(range(n))
    out = []
    k = 0
    while left:
        out.append(left.pop(picks[k % len(picks)] % len(left)))
        k += 1
    return out
