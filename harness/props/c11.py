"""The junction table agrees with the lane links; connection ids are unique."""
from hypothesis import strategies as st

import crossings
import lanes
import nets
import shapes
from base import Info, Prop
from client import E, Prog
from xmlobs import attr, parse, require, toint


@st.composite
def table(draw):
    """connections made by hand, some with ids of their own, added one after the other"""
    n = draw(shapes.count(7, 25, 1))
    free = draw(st.permutations(list(range(0, 27))))
    out = []
    for k in range(n):
        lane = st.integers(-4, 4)
        out.append({"incoming": draw(st.integers(0, 200)), "connecting": draw(st.integers(0, 200)),
                    "contact": draw(st.sampled_from(nets.ENDS)),
                    "id": free[k] if draw(st.integers(0, 2)) == 0 else None,
                    "links": draw(st.lists(st.tuples(lane, lane).map(list), max_size=4)),
                    "later": draw(st.sampled_from([None, None, None, [-1, 1], [2, 2]]))})  # a link that is added at the end
    return {"name": draw(st.sampled_from(["j", "my junction", "a<b", ""])), "id": draw(st.integers(0, 300)), "conns": out}


class C11(Prop):
    quick, thorough = 3200, 150000
    rule = ("As C10, with the junction made by create_junction before or after the lanes were linked; or a Junction of 1-25 "
            "connections made by hand, in which those with an id of their own never repeat one that is already taken. "
            "Non-trivial: some connecting lane at a reversed contact or with an offset; or both kinds of ids.")
    assumptions = ["As C10."]
    must_cover = ("same direction contact", "opposite contact", "lane offset", "asymmetric and opposite", "turn", "loop", "by hand")

    def strategy(self):
        @st.composite
        def made(draw):
            return dict(draw(crossings.crossing()), when=draw(st.sampled_from(["before", "after"])))
        return st.one_of(made(), made(), made(), table())

    def check(self, c, sut):
        return self.by_hand(c, sut) if "name" in c else self.made(c, sut)

    def made(self, c, sut):
        conns = crossings.decode(c)
        p = Prog()
        normal, conn, rid = crossings.build(p, c, conns)
        odr = p.new("OpenDrive", "crossing")
        refs = normal + conn
        for i in nets.permutation(len(refs), c["order"]):
            odr.call("add_road", refs[i])
        if c["when"] == "after":
            odr.call("adjust_roads_and_lanes")
        j = p.new("create_junction", [conn[i] for i in nets.permutation(len(conn), c["order"][3:])], c["junction"],
                  [normal[i] for i in nets.permutation(len(normal), c["order"][5:])])
        odr.call("add_junction", j)
        if c["when"] == "before":
            odr.call("adjust_roads_and_lanes")
        x = odr.xml()
        doc = parse(sut.run(p)[x])
        js = doc.findall("junction")
        require(len(js) == 1, "%d junctions are written", len(js))
        require(attr(js[0], "id") == str(c["junction"]), "the junction has id %s, not %s", attr(js[0], "id"), c["junction"])
        byid = nets.roads_by_id(doc)
        want = {}
        for k, q in enumerate(conns):
            cid = str(rid(len(normal) + k))
            w = lanes.sections(byid[cid])
            for e, contact, kind in ((0, "start", "predecessor"), (1, "end", "successor")):
                sec = lanes.at_end(w, contact)
                links = sorted((lane.links[kind], l) for l, lane in sec.lanes.items() if lane.links[kind] is not None)
                want[str(rid(q["ends"][e][0])), cid, contact] = links
        got, ids = {}, set()
        for con in js[0].findall("connection"):
            key = (attr(con, "incomingRoad"), attr(con, "connectingRoad"), attr(con, "contactPoint"))
            require(key not in got, "two connections %s", key)
            got[key] = sorted((toint(attr(l, "from"), "from"), toint(attr(l, "to"), "to")) for l in con.findall("laneLink"))
            i = attr(con, "id")
            require(i not in ids, "two connections have the id %s", i)
            toint(i, "<connection id>")
            ids.add(i)
        require(sorted(got) == sorted(want), "connections %s are written, not %s", sorted(got), sorted(want))
        for k in want:
            require(got[k] == want[k], "connection %s links lanes (from, to) %s, but the lane links of the connecting road say %s", k, got[k], want[k])
        labels = crossings.labels(c, conns)
        return Info("opposite contact" in labels or "lane offset" in labels, labels)

    def by_hand(self, c, sut):
        p = Prog()
        j = p.new("Junction", c["name"], c["id"])
        added = []
        for q in c["conns"]:
            a = [q["incoming"], q["connecting"], E("ContactPoint." + q["contact"])]
            con = p.new("Connection", *a) if q["id"] is None else p.new("Connection", *a, id=q["id"])
            for f, t in q["links"]:
                con.call("add_lanelink", f, t)
            added.append((q, con))
        # one at a time; what was written earlier must stay
        xs = []
        for q, con in added:
            j.call("add_connection", con)
            xs.append(j.xml())
        for q, con in added:
            if q.get("later"):
                con.call("add_lanelink", *q["later"])
        full = j.xml()
        res = sut.run(p)
        taken, ids = set(), []
        skip = False
        last = None
        for k, x in enumerate(xs):
            el = parse(res[x])
            require(attr(el, "id") == str(c["id"]) and attr(el, "name") == c["name"], "the junction is written with id %r, name %r",
                    el.get("id"), el.get("name"))
            cs = el.findall("connection")
            require(len(cs) == k + 1, "%d connections were added, %d are written", k + 1, len(cs))
            now = []
            for q, con in zip(c["conns"], cs):
                require(attr(con, "incomingRoad") == str(q["incoming"]) and attr(con, "connectingRoad") == str(q["connecting"])
                        and attr(con, "contactPoint") == q["contact"], "a connection is written as %s, not %s", dict(con.attrib), q)
                links = [[toint(attr(l, "from"), "from"), toint(attr(l, "to"), "to")] for l in con.findall("laneLink")]
                require(links == q["links"], "lane links %s are written as %s", q["links"], links)
                if q["id"] is not None:
                    require(attr(con, "id") == str(q["id"]), "a connection of id %s is written with id %s", q["id"], attr(con, "id"))
                now.append(attr(con, "id"))
            require(last is None or now[:-1] == last, "ids changed from %s to %s", last, now)
            last = now
            q = c["conns"][k]
            if q["id"] is not None and str(q["id"]) in taken:
                skip = True  # the caller gave an id that was handed out automatically before
                break
            require(len(set(now)) == len(now), "connection ids are not unique: %s", now)
            taken.add(now[-1])
        if not skip:
            got = [[[toint(attr(l, "from"), "from"), toint(attr(l, "to"), "to")] for l in con.findall("laneLink")]
                   for con in parse(res[full]).findall("connection")]
            want = [q["links"] + ([q["later"]] if q.get("later") else []) for q in c["conns"]]
            require(got == want, "with the lane links that were added later, %s are written as %s", want, got)
        own = [q["id"] is not None for q in c["conns"]]
        return Info(any(own) and not all(own) and not skip, ["by hand"] + (["late explicit id"] if skip else []))


PROP = C11()
