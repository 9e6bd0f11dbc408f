"""Lane links of connecting roads."""
from hypothesis import strategies as st

import crossings
import lanes
import nets
from base import Info, Prop
from client import Prog
from xmlobs import parse, require


class C10(Prop):
    quick, thorough = 3200, 150000
    rule = ("2-14 normal roads of 1-8 sections with 0-12 lanes per side, and 1-12 connecting roads of 1-3 sections between the "
            "starts and ends of pairs of them, or back to the road they come from (loops and turns), with lanes on one or both sides and, where both run the same way, lane offsets; "
            "added in any order; some pairs linked by create_lane_links before adjusting. Non-trivial: some connecting lane at a reversed contact or with an offset.")
    assumptions = ["Lane offsets are used with lanes on one side and at contacts where both roads run the same way (as in the "
                   "repository's examples); every linked lane exists.",
                   "The normal roads have explicit starts."]
    must_cover = ("same direction contact", "opposite contact", "lane offset", "several sections", "asymmetric and opposite", "turn", "loop", "by hand")

    def strategy(self):
        @st.composite
        def case(draw):
            c = draw(crossings.crossing())
            if draw(st.integers(0, 3)) == 0:
                c["hand"] = draw(st.lists(st.tuples(st.integers(0, 7), st.integers(0, 7)).map(list), min_size=1, max_size=6))
            return c
        return case()

    def check(self, c, sut):
        conns = crossings.decode(c)
        p = Prog()
        normal, conn, rid = crossings.build(p, c, conns)
        odr = p.new("OpenDrive", "crossing")
        refs = normal + conn
        for i in nets.permutation(len(refs), c["order"]):
            odr.call("add_road", refs[i])
        for a, b in c.get("hand", []):
            p.new("create_lane_links", refs[a % len(refs)], refs[b % len(refs)])
        odr.call("adjust_roads_and_lanes")
        x = odr.xml()
        byid = nets.roads_by_id(parse(sut.run(p)[x]))
        for k, q in enumerate(conns):
            w = lanes.sections(byid[str(rid(len(normal) + k))])
            require(len(w) == len(q["sections"]), "%d sections were added, %d are written", len(q["sections"]), len(w))
            for n, sec in enumerate(w):
                require(sorted(sec.lanes) == sorted(crossings.lane_ids(q["sections"][n])), "section %d has lanes %s", n, sorted(sec.lanes))
                for l, lane in sec.lanes.items():
                    pred = crossings.linked(q, 0, l) if n == 0 else None
                    succ = crossings.linked(q, 1, l) if n == len(w) - 1 else None
                    for kind, want in (("predecessor", pred), ("successor", succ)):
                        require(lane.links[kind] == want, "lane %d in section %d of connecting road %s has %s %s, not %s", l, n,
                                rid(len(normal) + k), kind, lane.links[kind], want)
                require(sec.center.links == {"predecessor": None, "successor": None}, "the center lane is linked")
        for i in range(len(normal)):
            for sec in lanes.sections(byid[str(rid(i))]):
                for l, lane in sec.lanes.items():
                    require(lane.links == {"predecessor": None, "successor": None},
                            "lane %d of road %s, which only meets a junction, has links %s", l, rid(i), lane.links)
        labels = crossings.labels(c, conns)
        if c.get("hand"):
            labels.append("by hand")
        return Info("opposite contact" in labels or "lane offset" in labels, labels)


PROP = C10()
