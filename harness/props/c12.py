"""Generated junctions close."""
import math

from hypothesis import strategies as st

import curves
import lanes
import nets
import shapes
from base import Info, Prop
from client import Prog
from xmlobs import attr, num, parse, require

Q = math.pi / 2
T = 2 * math.pi / 3


@st.composite
def arms(draw):
    kind = draw(st.sampled_from(["cross", "T", "120"]))
    if kind == "cross":
        return kind, [0, Q, 2 * Q, 3 * Q]
    if kind == "T":
        return kind, draw(st.sampled_from([[0, Q, 2 * Q], [0, Q, 3 * Q], [0, 2 * Q, 3 * Q], [Q, 2 * Q, 3 * Q]]))
    return kind, [0, T, 2 * T]


@st.composite
def road(draw):
    return {"geoms": draw(nets.geoms()), "by": draw(st.sampled_from(["create_road", "create_straight_road", "hand"])),
            "length": draw(st.sampled_from([10, 100, 33.5]))}


@st.composite
def junction(draw):
    kind, angles = draw(arms())
    more = []
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
        # another junction at the far end of an arm
        k, a = draw(arms())
        more.append({"kind": k, "angles": a, "arm": draw(st.integers(0, 8)), "r": draw(st.sampled_from([10, 5, 20])),
                     "roads": [draw(road()) for _ in a[1:]]})
    return {
        "more": more,
        "kind": kind, "angles": angles, "turned": draw(st.sampled_from([0, 0, 0, Q, -Q, 1, -0.25])), "ids": draw(st.sampled_from([None, None, "text", 900, "down", "lookalikes"])), "r": draw(shapes.pick(10, 5, 30, floats=st.floats(1, 200))),
        "spiral": draw(st.one_of(st.none(), st.sampled_from([0.1, 0.25, 0.45, 0.5]), st.floats(0.02, 0.48))),
        "lanes": draw(shapes.count(4, 9, 1)), "width": draw(shapes.pick(3, 4, 2.5, floats=st.floats(0.5, 6))),
        "junction": draw(st.sampled_from([None, 1, 0, 7, 2, 1000])), "start": draw(st.sampled_from([None, 100, 5, 40])),
        "roads": [draw(road()) for _ in angles],
        "pose": draw(st.one_of(st.none(), shapes.POSE)), "pose_at": draw(st.integers(0, 3)),
        "order": draw(nets.random_order()), "more_sections": draw(st.booleans()),
        # one arm with other lanes
        "mismatch": draw(st.tuples(st.integers(0, 3), st.sampled_from(["left", "right", "both"]), st.sampled_from([1, -1])))
        if draw(st.integers(0, 7)) == 0 else None,
    }


class C12(Prop):
    quick, thorough = 1000, 40000
    rule = ("Roads made by the generators or by hand (2-section roads too), 4-way and 3-way at right angles or 3-way at 120 "
            "degrees, counted from any direction, arms with ids of any kind, any radius, spiral part (the arc takes the rest), lane count and width, junction and start ids, "
            "put together with create_junction_roads and create_junction; up to two further junctions at the far ends of arms; added in any order that starts with one of the "
            "roads. Non-trivial: every case.")
    assumptions = ["Rejected arms aside, angles increase from the first road's and stay below a whole turn; arc part = 1 - 2 spiral part; all roads "
                   "have equally many lanes on both sides, of one width.",
                   "Clothoids start at a curvature of 1e-9, not 0: positions may differ by 2e-5 + 2e-8 r^2 + 2e-9 of the size."]
    must_cover = ("cross", "T", "120", "rejected", "2 junctions", "3 junctions")

    def strategy(self):
        return junction()

    def check(self, c, sut):
        p = Prog()
        n, w, k = c["lanes"], c["width"], len(c["angles"])
        mis = c.get("mismatch")
        bad = mis[0] % k if mis else None
        # junctions: their arms, of which the first one arrives with its end and the others leave with their start
        specs = [dict(r) for r in c["roads"]]
        js = [{"arms": list(range(k)), "angles": c["angles"], "r": c["r"]}]
        free = list(range(1, k))
        for m in [] if mis else c.get("more", []):
            arm = free.pop(m["arm"] % len(free))
            new = list(range(len(specs), len(specs) + len(m["roads"])))
            specs += [dict(r) for r in m["roads"]]
            free += new
            js.append({"arms": [arm] + new, "angles": m["angles"], "r": m["r"]})
            specs[arm]["twice"] = True
        kk = len(specs)
        style = c.get("ids")
        ids = ["arm %d" % i if style == "text" else nets.LOOKALIKES[i % 24] if style == "lookalikes" else 900 + i * i if style == 900 else 4 - i if style == "down" and kk < 5 else i for i in range(kk)]
        at = c["pose_at"] % kk
        roads = []
        for i, r in enumerate(specs):
            pose = c["pose"] if i == at else None
            if i == bad:
                nl, nr = [max(0, n + mis[2]) if mis[1] in (side, "both") else n for side in ("left", "right")]
                roads.append(p.new("create_road", [shapes.build(p, g) for g in r["geoms"]], ids[i], left_lanes=nl, right_lanes=nr, lane_width=w))
                continue
            if pose is not None or r["by"] == "hand":
                nsec = 2 if c["more_sections"] else 1
                L = sum(shapes.length(g) for g in r["geoms"])
                # the section away from the junction has one lane more
                counts = [n, n + 1] if i else [n + 1, n]
                if r.get("twice"):
                    nsec, counts = 2 * nsec - 1, [n, n + 1, n]
                secs = [{"s": L * q / nsec, "left": m, "right": m} for q, m in enumerate(counts if nsec > 1 else [n])]
                roads.append(nets.new_road(p, {"id": ids[i], "junction": -1, "geoms": r["geoms"], "pose": pose, "sections": secs}, w))
            elif r["by"] == "create_road":
                roads.append(p.new("create_road", [shapes.build(p, g) for g in r["geoms"]], ids[i], left_lanes=n, right_lanes=n, lane_width=w))
            else:
                roads.append(p.new("create_straight_road", ids[i], length=r["length"], n_lanes=n, lane_offset=w))
        odr = p.new("OpenDrive", "junction") if not mis else None
        start = c["start"] if kk < 6 or c["start"] != 5 else 50
        everything = list(roads)
        counts = []
        for q, j in enumerate(js):
            kw = {}
            if c["junction"] is not None or q:
                kw["junction"] = (c["junction"] or 1) + q if q else c["junction"]
            if c["spiral"] is not None:
                kw.update(spiral_part=c["spiral"], arc_part=1 - 2 * c["spiral"])
            if start is not None or q:
                kw["startnum"] = (start or 100) + 10 * q
            angles = [a + c.get("turned", 0) for a in j["angles"]]
            mine = [roads[i] for i in j["arms"]]
            if mis:
                t = p.try_new("create_junction_roads", mine, angles, j["r"], **kw)
                e = sut.run(p).exc(t)
                require(e is not None, "arms with different lanes were accepted (road %d of %d)", bad, k)
                require("NotSameAmountOfLanesError" in e, "arms with different lanes raised %s", e[0])
                return Info(True, ["rejected"])
            made = p.new("create_junction_roads", mine, angles, j["r"], **kw)
            j["pairs"] = [(a, b) for a in range(len(mine)) for b in range(a + 1, len(mine))]
            counts.append(made.ask("__len__"))
            jroads = [made.item(m) for m in range(len(j["pairs"]))]
            j["id"], j["first"] = kw.get("junction", 1), kw.get("startnum", 100)
            j["ref"] = p.new("create_junction", jroads, j["id"], mine)
            odr.call("add_junction", j["ref"])
            everything += jroads
        for i in nets.permutation(len(everything), c["order"]):
            odr.call("add_road", everything[i])
        odr.call("adjust_roads_and_lanes")
        x = odr.xml()
        res = sut.run(p)
        doc = parse(res[x])
        byid = nets.roads_by_id(doc)
        require(len(byid) == len(everything), "%d roads are written, not %d", len(byid), len(everything))
        pl = {i: nets.Placed(e) for i, e in byid.items()}
        scale = max(q.scale for q in pl.values())
        written = doc.findall("junction")
        require(len(written) == len(js), "%d junctions are written, not %d", len(written), len(js))
        links = {i: [] for i in range(kk)}
        for j, count in zip(js, counts):
            require(res[count] == len(j["pairs"]), "%d roads are connected by %s roads, not %d", len(j["arms"]), res[count], len(j["pairs"]))
            self.junction(c, j, [ids[i] for i in j["arms"]], byid, pl, scale, written)
            for q, i in enumerate(j["arms"]):
                links[i].append(("predecessor" if q else "successor", "junction", str(j["id"])))
        for i in range(kk):
            link = byid[str(ids[i])].find("link")
            got = [(e.tag, e.get("elementType"), e.get("elementId")) for e in link]
            require(sorted(got) == sorted(links[i]), "road %s is linked to %s, not %s", ids[i], got, links[i])
        return Info(True, [c["kind"], "arm ids %s" % style, "%d junctions" % len(js), "%d lanes" % n,
                           "explicit start" if c["pose"] is not None else "no explicit start"])

    def junction(self, c, J, ids, byid, pl, scale, written):
        n, w, r = c["lanes"], c["width"], J["r"]
        k, first, jid = len(ids), J["first"], J["id"]
        tol = 2e-5 + 2e-8 * max(r, c["r"]) ** 2 + 1e-9 * scale
        ends = ["end"] + ["start"] * (k - 1)
        for q, (i, j) in enumerate(J["pairs"]):
            rid = str(first + q)
            require(rid in byid, "there is no connecting road %s", rid)
            el = byid[rid]
            require(attr(el, "junction") == str(jid), "connecting road %s belongs to junction %s, not %s", rid, attr(el, "junction"), jid)
            link = el.find("link")
            got = [(e.tag, e.get("elementType"), e.get("elementId"), e.get("contactPoint")) for e in link]
            want = [("predecessor", "road", str(ids[i]), ends[i]), ("successor", "road", str(ids[j]), ends[j])]
            require(sorted(got) == want, "connecting road %s is linked to %s, not %s", rid, got, want)
            what = "connecting road %s between roads %s and %s" % (rid, ids[i], ids[j])
            curves.same_pose(nets.outward(pl[str(ids[i])].at(ends[i]), ends[i]), pl[rid].start, scale, what + ": its start", tol, 1e-6)
            curves.same_pose(nets.inward(pl[str(ids[j])].at(ends[j]), ends[j]), pl[rid].end, scale, what + ": its end", tol, 1e-6)
            secs = lanes.sections(el)
            require(len(secs) == 1 and len(secs[0].left) == n and len(secs[0].right) == n,
                    "%s has %s lanes, the roads have %d on each side", what, [(len(s.left), len(s.right)) for s in secs], n)
            for l in secs[0].lanes.values():
                require(l.width == [w, 0, 0, 0], "%s: lane %d has width %s, not %r", what, l.id, l.width, w)
                # junction arms: the first road arrives with its end, all others leave with their start
                pred = l.id if ends[i] == "end" else -l.id
                require(l.links == {"predecessor": pred, "successor": l.id if ends[j] == "start" else -l.id},
                        "%s: lane %d is linked to %s", what, l.id, l.links)
        # the arms leave at the angles asked for
        arm0 = nets.outward(pl[str(ids[0])].at("end"), "end")[2] + math.pi
        for j in range(1, k):
            h = nets.inward(pl[str(ids[j])].at("start"), "start")[2]
            require(curves.angle_diff(h - arm0, J["angles"][j] - J["angles"][0]) < 2e-6 + 1e-8 * r,
                    "road %s leaves at %r from road %s, not %r", ids[j], h - arm0, ids[0], J["angles"][j] - J["angles"][0])
        mine = [e for e in written if attr(e, "id") == str(jid)]
        require(len(mine) == 1, "junction %s is written %d times", jid, len(mine))
        got = sorted((attr(e, "incomingRoad"), attr(e, "connectingRoad"), attr(e, "contactPoint"), len(e.findall("laneLink")))
                     for e in mine[0].findall("connection"))
        want = sorted(t for q, (i, j) in enumerate(J["pairs"]) for t in ((str(ids[i]), str(first + q), "start", 2 * n), (str(ids[j]), str(first + q), "end", 2 * n)))
        require(got == want, "connections %s are written, not %s", got, want)
        num(mine[0], "id")


PROP = C12()
