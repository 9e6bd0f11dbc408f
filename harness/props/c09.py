"""Lane links between directly joined roads."""
from hypothesis import strategies as st

import lanes
import nets
import shapes
from base import Info, Prop
from client import Prog, Violation
from xmlobs import parse, require

COUNT = st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4), st.integers(5, 9))


@st.composite
def chain(draw):
    """roads in a row, each with its own direction; cyclic when closed"""
    closed = draw(st.integers(0, 3)) == 0
    n = draw(st.integers(1 if closed else 2, 5))
    roads = []
    for i in range(n):
        roads.append({"flip": draw(st.booleans()),
                      "inner": [[draw(COUNT), draw(COUNT)] for _ in range(draw(st.integers(0, 2)))]})
    # lanes at the joints, left and right as seen along the chain
    joints = [[draw(COUNT), draw(COUNT)] for _ in range(n + 1)]
    if closed:
        joints[n] = joints[0]
    c = {"roads": roads, "joints": joints, "closed": closed, "order": draw(nets.random_order()),
         "ids": draw(st.sampled_from(["ints", "ints", "texts", "links as text", "lookalikes"])), "junction": draw(st.integers(0, 6)),
         "linker": draw(st.booleans()), "mismatch": None}
    how = draw(st.sampled_from(["adjust", "adjust", "adjust", "some by hand", "all by hand"]))
    if how == "some by hand":
        c["hand"] = [[a % n, b % n] for a, b in draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)), min_size=1, max_size=4))]
    elif how == "all by hand":
        c["hand"] = draw(st.permutations([[i, j] if draw(st.booleans()) else [j, i] for i in range(n) for j in range(i, n)]))
        c["hand"] = [list(h) for h in c["hand"]]
        c["only"] = True
    if draw(st.integers(0, 4)) == 0:
        c["mismatch"] = [draw(st.integers(0, n - 1 if closed else n - 2)), draw(st.sampled_from([0, 1])), draw(st.sampled_from([1, -1]))]
    return c


def decode(c):
    """sections of each road in its own direction (left, right), and the joints"""
    n = len(c["roads"])
    roads = []
    for i, r in enumerate(c["roads"]):
        first, last = c["joints"][i], c["joints"][i + 1]
        if c["mismatch"] and c["mismatch"][0] == i:
            last = list(last)
            side, d = c["mismatch"][1:]
            last[side] += d if last[side] + d >= 0 else 1
        secs = [first] + r["inner"] + [last]
        if first == last and not r["inner"]:
            secs = [first]  # one section at both ends
        if r["flip"]:
            secs = [s[::-1] for s in reversed(secs)]
        roads.append(secs)
    joints = []
    for i in range(n if c["closed"] else n - 1):
        j = (i + 1) % n
        joints.append((i, "start" if c["roads"][i]["flip"] else "end", j, "end" if c["roads"][j]["flip"] else "start"))
    return roads, joints


class C09(Prop):
    quick, thorough = 3600, 150000
    rule = ("2-5 roads in a row or 1-5 in a ring, each running either way, with 1-4 lane sections of 0-9 "
            "lanes per side whose numbers agree at the joints or, sometimes, differ at one of them; "
            "free ends lead into a junction of any id; links inside a road by a LaneLinker. Added in any order and adjusted, or some or all pairs of roads given to create_lane_links before. "
            "Non-trivial: lanes on both sides of some joint and either a road of several sections or a reversed joint.")
    assumptions = ["Every road has an explicit start: only the lane links are looked at."]
    must_cover = ("end-start", "start-end", "end-end", "start-start", "ring", "ring of 1", "ring of 2", "mismatch", "several sections", "some by hand", "all by hand")

    def strategy(self):
        return chain()

    def check(self, c, sut):
        roads, joints = decode(c)
        p = Prog()
        name = (lambda i: "road%d" % i) if c["ids"] == "texts" else (lambda i: nets.LOOKALIKES[i]) if c["ids"] == "lookalikes" else (lambda i: i)
        idin = (lambda i: str(i)) if c["ids"] == "links as text" else name
        refs, inner = [], {}
        for i, secs in enumerate(roads):
            pv = p.new("PlanView", 10 * i, -5 * i, 0)
            pv.call("add_geometry", p.new("Line", 50))
            ls = p.new("Lanes")
            linker = p.new("LaneLinker") if c["linker"] else None
            made = []
            for k, (nl, nr) in enumerate(secs):
                sec = p.new("LaneSection", 50.0 * k / len(secs), p.new("Lane"))
                m = {}
                for side, cnt, sign in (("left", nl, 1), ("right", nr, -1)):
                    for q in range(1, cnt + 1):
                        m[sign * q] = p.new("Lane", a=3)
                        sec.call("add_%s_lane" % side, m[sign * q])
                if linker and made:
                    for q in sorted(set(m) & set(made[-1][1])):
                        linker.call("add_link", made[-1][1][q], m[q])
                        inner[i, k - 1, q, "successor"] = q
                        inner[i, k, q, "predecessor"] = q
                made.append((sec, m))
            for sec, _ in made:
                if linker:
                    ls.call("add_lanesection", sec, linker)
                else:
                    ls.call("add_lanesection", sec)
            refs.append(p.new("Road", name(i), pv, ls))
        net = nets.Net()
        net.roads = [{"id": idin(i), "junction": -1} for i in range(len(roads))]
        net.joints = joints
        used = {(i, e) for i, e, _, _ in joints} | {(j, e) for _, _, j, e in joints}
        net.junction_ends = {(i, e): c["junction"] for i in (0, len(roads) - 1) for e in nets.ENDS if (i, e) not in used}
        nets.link(p, net, refs)
        odr = p.new("OpenDrive", "lanes")
        for i in nets.permutation(len(roads), c["order"]):
            odr.call("add_road", refs[i])
        tried = [p.try_new("create_lane_links", refs[a], refs[b]) for a, b in c.get("hand", [])]
        tried.append(odr.try_call("adjust_startpoints" if c.get("only") else "adjust_roads_and_lanes"))
        x = odr.xml()
        res = sut.run(p)
        labels = sorted({"%s-%s" % (ea, eb) for _, ea, _, eb in joints})
        if c["closed"]:
            labels.append("ring")
            if len(roads) < 3:
                labels.append("ring of %d" % len(roads))
        if any(len(s) > 1 for s in roads):
            labels.append("several sections")

        def counts(i, end):
            return roads[i][0 if end == "start" else -1]

        expect_error = any(counts(a, ea) != (counts(b, eb) if ea != eb else counts(b, eb)[::-1]) for a, ea, b, eb in joints)
        failed = [t for t in tried if res.exc(t) is not None]
        adj = failed[0] if failed else tried[-1]
        exc = res.exc(adj)
        if expect_error:
            require(exc is not None, "joined roads have different numbers of lanes, and nothing was raised")
            require("NotSameAmountOfLanesError" in exc, "joined roads have different numbers of lanes: %s was raised", exc[0])
            return Info(True, labels + ["mismatch"])
        if exc is not None:
            raise Violation("a valid network raised %s: %s" % (exc[0], res.excmsg(adj)))
        want = dict(inner)
        for a, ea, b, eb in joints:
            sign = 1 if ea != eb else -1
            for (i, e), (j, f) in (((a, ea), (b, eb)), ((b, eb), (a, ea))):
                k = 0 if e == "start" else len(roads[i]) - 1
                nl, nr = roads[i][k]
                for q in list(range(1, nl + 1)) + [-v for v in range(1, nr + 1)]:
                    want[i, k, q, "predecessor" if e == "start" else "successor"] = sign * q
        byid = nets.roads_by_id(parse(res[x]))
        for i, secs in enumerate(roads):
            w = lanes.sections(byid[str(name(i))])
            require(len(w) == len(secs), "road %d has %d lane sections, %d are written", i, len(secs), len(w))
            for k, sec in enumerate(w):
                require([len(sec.left), len(sec.right)] == list(secs[k]), "section %d of road %d has lanes %s, %s are written", k, i,
                        secs[k], [len(sec.left), len(sec.right)])
                for q, lane in list(sec.lanes.items()) + [(0, sec.center)]:
                    for kind in ("predecessor", "successor"):
                        require(lane.links[kind] == want.get((i, k, q, kind)), "lane %d in section %d of road %d has %s %s, not %s",
                                q, k, i, kind, lane.links[kind], want.get((i, k, q, kind)))
        if c.get("hand"):
            labels.append("all by hand" if c.get("only") else "some by hand")
        both = any(sum(counts(a, ea)) > 0 for a, ea, _, _ in joints)
        return Info(both and (any(len(s) > 1 for s in roads) or any(ea == eb for _, ea, _, eb in joints)), labels)


PROP = C09()
