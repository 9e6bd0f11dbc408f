"""Adjusting again is harmless, also after more roads were added."""
from hypothesis import strategies as st

import anynet
import nets
from base import Info, Prop
from client import Prog
from props.c07 import same_roads, size
from xmlobs import canon, first_difference, parse, require


class C08(Prop):
    quick, thorough = 1300, 60000
    rule = ("A network, row or ring as C05, with lanes, or a highway of splits and merges with lane offsets (as C13), whose roads are linked (as they are added, or all beforehand) and added in one to three stages, adjusting 1-3 times after "
            "each stage - sometimes with explicit starts for all normal roads, some of them placed by hand before they are added, and joints between them that are linked in a "
            "later stage; compared with the same network built and adjusted once. Non-trivial: more than one adjustment "
            "and more than one road.")
    assumptions = ["As C05. Roads are added in the order in which they were hung on the network."]
    must_cover = ("staged", "adjusted again", "via junction", "linked after placing", "placed by hand", "ring", "highway", "chain", "linked ahead")

    def strategy(self):
        @st.composite
        def case(draw):
            return dict(draw(anynet.network(min_steps=1, max_steps=5, max_extra=1)), ahead=draw(st.booleans()), fixed=draw(st.booleans()), hand=draw(st.lists(st.booleans(), min_size=1, max_size=4)),
                        delay=draw(st.lists(st.integers(0, 2), min_size=1, max_size=6)),
                        cuts=draw(st.lists(st.integers(0, 12), max_size=2)), times=[draw(st.integers(1, 3)) for _ in range(3)])
        return case()

    def check(self, c, sut):
        net = anynet.decode(c, at_root=True)
        n = len(net.roads)
        # stages end where a step ended: after a normal road
        stops = sorted({k + 1 for k in range(n) if net.normal(k)})
        cuts = sorted({stops[q % len(stops)] for q in c["cuts"]} | {n})
        labels = []
        stage_of = {}
        if c.get("fixed"):
            # all normal roads get explicit starts, so that the joints between them may also be linked later
            p = Prog()
            x = nets.build(p, net)[0].xml()
            pl = nets.placed(sut.run(p)[x])
            for r in net.roads:
                if r["junction"] == -1:
                    r["pose"] = list(pl[str(r["id"])].start)
            for k, j in enumerate(net.joints):
                if net.normal(j[0]) and c["delay"][k % len(c["delay"])]:
                    stage_of[j] = c["delay"][k % len(c["delay"])]
        p = Prog()
        once, _ = nets.build(p, net)
        x1 = once.xml()
        refs = [nets.new_road(p, r) for r in net.roads]
        for i, r in enumerate(net.roads):
            if c.get("fixed") and net.normal(i) and c.get("hand", [0])[i % len(c.get("hand", [0]))]:
                refs[i].part("planview").call("adjust_geometries")
                labels.append("placed by hand")
        odr = p.new("OpenDrive", "net")
        done, linked, xs = 0, set(), []
        if c.get("ahead") and not stage_of:
            nets.link(p, net, refs)
            linked = set(net.joints) | set(net.junction_ends)
            labels.append("linked ahead")
        for stage, cut in enumerate(cuts):
            new = [j for j in net.joints if max(j[0], j[2]) < cut and j not in linked and
                   (stage_of.get(j, 0) <= stage or cut == n)]
            if any(j in stage_of and max(j[0], j[2]) < done for j in new):
                labels.append("linked after placing")
            for i, e, o, f in new:
                for end in ((i, e), (o, f)):
                    if end in net.junction_ends and end not in linked:
                        refs[end[0]].call("add_successor" if end[1] == "end" else "add_predecessor",
                                          {"enum": "ElementType.junction"}, net.junction_ends[end])
                        linked.add(end)
            nets.link(p, net, refs, new)
            linked.update(new)
            for i in range(done, cut):
                odr.call("add_road", refs[i])
            done = cut
            xs.append([])
            for _ in range(c["times"][stage % 3]):
                odr.call("adjust_roads_and_lanes")
                xs[-1].append(odr.xml())
        res = sut.run(p)
        for stage in xs:
            first = canon(parse(res[stage[0]]), drop={("header", "date")})
            for x in stage[1:]:
                d = first_difference(first, canon(parse(res[x]), drop={("header", "date")}))
                require(d is None, "adjusting again changed the document: %s", d)
        a, b = parse(res[x1]), parse(res[xs[-1][-1]])
        same_roads(a, b, max(size(a), size(b)) * (1 + n), what="built at once, and in stages %s" % cuts)
        if len(cuts) > 1:
            labels.append("staged")
        if any(len(s) > 1 for s in xs):
            labels.append("adjusted again")
        labels += anynet.labels(c, net)
        return Info(n > 1 and sum(len(s) for s in xs) > 1, sorted(set(labels)))


PROP = C08()
