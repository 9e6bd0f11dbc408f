"""Explicit starts are kept, the first road is the origin otherwise, and what cannot be placed is reported."""
from hypothesis import strategies as st

import curves
import nets
import shapes
from base import Info, Prop
from client import E, Prog, Violation
from xmlobs import require


def components(nodes, joints):
    """the connected parts of what is there"""
    parts = [{i} for i in nodes]
    for a, _, b, _ in joints:
        pa = next(q for q in parts if a in q)
        pb = next(q for q in parts if b in q)
        if pa is not pb:
            pa |= pb
            parts.remove(pb)
    return parts


class C06(Prop):
    quick, thorough = 1800, 80000
    rule = ("1-3 separate networks (as C05) written into one document, with explicit starts (zeros included) on none, one "
            "or several of their roads, connecting roads included (some lead nowhere), added in any order, at once or in two or three stages (linked as far as they "
            "are there, or all beforehand, and adjusted each time), sometimes without the last ones. "
            "Non-trivial: more than one network, or more than one road.")
    must_cover = ("reported", "one origin", "explicit", "several explicit in one network", "zeros", "stages", "reported at first", "connecting road alone", "connecting road to nowhere", "stages linked ahead", "linked road missing")

    def strategy(self):
        @st.composite
        def case(draw):
            n = draw(st.sampled_from([1, 1, 2, 2, 3]))
            return {"nets": [draw(nets.chain() if n == 1 and draw(st.integers(0, 3)) == 0 else nets.network(min_steps=0, max_steps=3, pose=False, dead=True)) for _ in range(n)],
                    "explicit": [draw(st.lists(st.tuples(st.integers(0, 9), st.one_of(st.just([0, 0, 0]), shapes.POSE)).map(list),
                                               max_size=2)) if draw(st.integers(0, 2)) else [] for _ in range(n)],
                    "order": draw(nets.random_order()),
                    "alone": [draw(st.booleans()) for _ in range(n)],
                    "ahead": draw(st.booleans()), "forget": draw(st.sampled_from([0, 0, 0, 1, 2])),
                    "cuts": draw(st.lists(st.integers(0, 20), max_size=2))}
        return case()

    def check(self, c, sut):
        whole = nets.Net()
        labels = []
        ids = c["nets"][0]["ids"]
        for k, (spec, ex) in enumerate(zip(c["nets"], c["explicit"])):
            net = nets.decode(dict(spec, ids=ids, junctions=1000000 * (k + 1)))
            if len(net.roads) == 1 and c.get("alone", [False] * 9)[k]:
                net.roads[0]["junction"] = 5
                labels.append("connecting road alone")
            base = len(whole.roads)
            for pick, pose in ex:
                net.roads[pick % len(net.roads)]["pose"] = pose
            for r in net.roads:
                r["id"] = "%d:%s" % (k, r["id"]) if isinstance(r["id"], str) else r["id"] + 10 ** 6 * k
                whole.roads.append(r)
            whole.joints += [(a + base, ea, b + base, eb) for a, ea, b, eb in net.joints]
            whole.junction_ends.update({(i + base, e): j for (i, e), j in net.junction_ends.items()})
            whole.linktext = net.linktext
        # joined ends that are both explicit need not meet, and lanes agree by construction
        p = Prog()
        n = len(whole.roads)
        order = nets.permutation(n, c["order"])
        ahead = c.get("ahead", False)
        if c.get("forget") and ahead and n > 1:
            # linked, but never added
            n = max(1, n - c["forget"])
            order = order[:n]
            labels.append("linked road missing")
        cuts = sorted({q % n for q in c.get("cuts", [])} - {0} | {n})
        refs = [nets.new_road(p, r) for r in whole.roads]
        for (i, end), jid in whole.junction_ends.items():
            refs[i].call("add_successor" if end == "end" else "add_predecessor", E("ElementType.junction"), jid)
        if ahead:
            nets.link(p, whole, refs, whole.joints)
        odr = p.new("OpenDrive", "net")
        adjs, parts, there, linked = [], [], set(), set()
        for cut in cuts:
            for i in order[len(there):cut]:
                odr.call("add_road", refs[i])
                there.add(i)
            new = [j for j in whole.joints if j[0] in there and j[2] in there and j not in linked]
            if not ahead:
                nets.link(p, whole, refs, new)
            linked.update(new)
            adjs.append(odr.try_call("adjust_roads_and_lanes"))
            parts.append(components(there, linked))
        x = odr.xml()
        res = sut.run(p)
        explicit = [i for i, r in enumerate(whole.roads) if r["pose"] is not None and i in there]
        anchored = set()
        for k, (adj, comps) in enumerate(zip(adjs, parts)):
            exc = res.exc(adj)
            here = set().union(*comps)
            if not anchored:
                anchored = here & set(explicit) or {order[0]}
            anchored |= here & set(explicit)
            placed = set().union(*[comp for comp in comps if comp & anchored])
            if placed != here:
                require(exc is not None, "a part of the network without any start was placed: nothing was raised")
                require("UndefinedRoadNetwork" in exc, "a part of the network has no start: %s was raised", exc[0])
                if k == len(adjs) - 1:
                    return Info(True, labels + ["reported"])
                labels.append("reported at first")
            elif exc is not None:
                raise Violation("a network that can be placed raised %s: %s" % (exc[0], res.excmsg(adj)))
        if any(s.get("via", {}).get("dead") for spec in c["nets"] for s in spec["steps"]):
            labels.append("connecting road to nowhere")
        if len(cuts) > 1:
            labels.append("stages linked ahead" if ahead else "stages")
        pl = nets.placed(res[x])
        if order[0] in anchored and order[0] not in explicit:
            i = order[0]
            s = pl[str(whole.roads[i]["id"])].start
            require(all(abs(v) <= 1e-9 for v in s), "the first road starts at %s, not in the origin", s)
            labels.append("one origin")
        for i in explicit:
            s = pl[str(whole.roads[i]["id"])].start
            pose = whole.roads[i]["pose"]
            require(all(abs(a - b) <= 1e-9 for a, b in zip(s, pose)), "road %s starts at %s, not at its explicit start %s", whole.roads[i]["id"], s, pose)
            if pose == [0, 0, 0]:
                labels.append("zeros")
        if explicit:
            labels.append("explicit")
        if any(sum(i in comp for i in explicit) > 1 for comp in parts[-1]):
            labels.append("several explicit in one network")
        # everything that is placed meets at least one neighbour, or has a start of its own
        scale = max([1.0] + [q.scale for q in pl.values()]) * (1 + len(whole.roads))
        met = set(anchored)
        pending = True
        while pending:
            pending = False
            for a, ea, b, eb in whole.joints:
                for i, ei, j, ej in ((a, ea, b, eb), (b, eb, a, ea)):
                    if i in met and j not in met and j in there:
                        pa, pb = pl[str(whole.roads[i]["id"])], pl[str(whole.roads[j]["id"])]
                        try:
                            curves.same_pose(nets.outward(pa.at(ei), ei), nets.inward(pb.at(ej), ej), scale, "joint",
                                             pos_tol=2e-5, ang_tol=1e-6)
                        except Violation:
                            continue
                        met.add(j)
                        pending = True
        require(len(pl) == len(there), "%d roads are added, %d written", len(there), len(pl))
        for i in order:
            r = whole.roads[i]
            require(i in met, "road %s is not placed against any road it is linked to", r["id"])
        return Info(len(whole.roads) > 1, sorted(set(labels)))


PROP = C06()
