"""The links and attributes of a road, junction tables entered by hand, and rejected links."""
from hypothesis import strategies as st

import crossings
import nets
import shapes
import worlds
from base import Info, Prop
from client import E, Prog
from xmlobs import attr, canon, first_difference, one, parse, require

ID = st.one_of(st.integers(0, 12), st.sampled_from(["7", "road-b", "\u00e5"]), st.sampled_from(nets.LOOKALIKES))
TYPE = st.sampled_from(["road", "junction"])
CP = st.sampled_from([None, "start", "end"])


@st.composite
def history(draw):
    ops = []
    for _ in range(draw(shapes.count(9, 25, 1))):
        op = draw(st.sampled_from(["successor", "predecessor", "neighbor", "neighbor", "bad neighbor"]))
        ops.append({"op": op, "type": draw(TYPE), "id": draw(ID), "cp": draw(CP), "dir": draw(st.sampled_from(["same", "opposite"])),
                    "offset": draw(st.sampled_from([None, None, 1, -1])), "road": draw(st.sampled_from([0, 0, 1]))})
    cons = [{"in": draw(ID), "conn": draw(ID), "cp": draw(st.sampled_from(["start", "end"])),
             "links": draw(st.lists(st.tuples(st.integers(-4, 4), st.integers(-4, 4)).map(list), max_size=5)),
             "late": draw(st.integers(0, 2))} for _ in range(draw(shapes.count(5, 15)))]
    roads = [{"id": draw(st.one_of(st.integers(20, 30), st.sampled_from(["x", "31"]))), "junction": draw(st.sampled_from([None, -1, 1, 0, 12])),
              "name": draw(st.one_of(st.none(), worlds.NAME)), "rule": draw(st.sampled_from([None, "RHT", "LHT"]))} for _ in range(2)]
    if str(roads[0]["id"]) == str(roads[1]["id"]):
        roads[1]["id"] = 99
    return {"ops": ops, "connections": cons, "roads": roads, "more": draw(shapes.count(0, 15)), "before": draw(st.booleans()), "jid": draw(ID), "jname": draw(worlds.NAME), "ids": draw(st.lists(st.integers(0, 30), min_size=15, max_size=15, unique=True)),
            "explicit": [draw(st.booleans())] * 15}


@st.composite
def attempts(draw):
    """a crossing, and links that must be rejected because the road already has one, tried at some time"""
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        ops.append({"road": draw(st.integers(0, 12)), "op": draw(st.sampled_from(["successor", "predecessor", "neighbor"])),
                    "type": draw(TYPE), "id": draw(st.integers(0, 12)), "cp": draw(CP), "offset": draw(st.sampled_from([None, 1, -1, 2])),
                    "when": draw(st.sampled_from(["early", "early", "added", "placed"]))})
    return {"crossing": draw(crossings.crossing(big=False)), "attempts": ops}


class C22(Prop):
    quick, thorough = 6000, 200000
    rule = ("Histories of 1-25 successor, predecessor and neighbour links (with and without contact point, more than allowed, "
            "neighbours without direction) on two roads with any attributes, and a junction entered by hand with 0-15 "
            "connections, now and then among up to 15 others. Or a crossing built twice, once with links in between that must be rejected: both documents are "
            "the same. Non-trivial: a link was rejected, or three or more were accepted.")
    assumptions = ["The error of a rejected link is a ValueError, as documented by the code."]
    must_cover = ("second successor", "second predecessor", "third neighbor", "neighbor without direction", "connections", "lane links added late",
                  "rejected while building", "several junctions")

    def strategy(self):
        return st.one_of(history(), history(), attempts())

    def check(self, c, sut):
        if "attempts" in c:
            return self.whole(c, sut)
        p = Prog()
        labels = set()
        roads = []
        for r in c["roads"]:
            pv = p.new("PlanView", 0, 0, 0)
            pv.call("add_geometry", p.new("Line", 10))
            lanes, _ = nets.new_lanes(p, {"sections": [{"s": 0, "left": 1, "right": 1}]})
            kw = {k: r[k] for k in ("name", "rule") if r[k] is not None}
            if r["junction"] is not None:
                kw["road_type"] = r["junction"]
            roads.append(p.new("Road", r["id"], pv, lanes, **kw))
        want = [[], []]
        steps = []
        for op in c["ops"]:
            k = op["road"]
            mine = want[k]
            kind = op["op"]
            args = [E("ElementType." + op["type"]), op["id"]]
            kw = {}
            if kind in ("successor", "predecessor"):
                if op["cp"]:
                    args.append(E("ContactPoint." + op["cp"]))
                if op["offset"] is not None:
                    kw["lane_offset"] = op["offset"]
                ok = all(t != kind for t, _ in mine)
                a = {"elementType": op["type"], "elementId": str(op["id"])}
                if op["cp"]:
                    a["contactPoint"] = op["cp"]
                if not ok:
                    labels.add("second " + kind)
            else:
                ok = sum(t == "neighbor" for t, _ in mine) < 2
                if not ok:
                    labels.add("third neighbor")
                args.append(E("Direction." + op["dir"]) if kind == "neighbor" else None)
                if kind == "bad neighbor":
                    ok = False
                    labels.add("neighbor without direction")
                a = {"elementType": op["type"], "elementId": str(op["id"]), "direction": op["dir"]}
                kind = "neighbor"
            before = roads[k].xml()
            t = roads[k].try_call("add_" + kind, *args, **kw)
            after = roads[k].xml()
            steps.append((op, t, ok, before, after))
            if ok:
                mine.append((kind, a))
        # a junction by hand
        j = p.new("Junction", c["jname"], c["jid"])
        cons = []
        for n, q in enumerate(c["connections"]):
            kw = {"id": c["ids"][n]} if all(c["explicit"][:len(c["connections"])]) else {}
            r = p.new("Connection", q["in"], q["conn"], E("ContactPoint." + q["cp"]), **kw)
            for a, b in q["links"][q["late"]:]:
                r.call("add_lanelink", a, b)
            j.call("add_connection", r)
            if q["late"] and q["links"]:
                labels.add("lane links added late")
            for a, b in q["links"][:q["late"]]:
                r.call("add_lanelink", a, b)
            cons.append((q, kw.get("id")))
        odr = p.new("OpenDrive", "links")
        for r in roads:
            odr.call("add_road", r)
        others = []
        for n in range(c["more"]):
            k = p.new("Junction", "further %d" % n, 1000 + n)
            k.call("add_connection", p.new("Connection", 2000 + n, 3000 + n, E("ContactPoint.start"), id=n))
            others.append(k)
        for k in others + [j] if c["before"] else [j] + others:
            odr.call("add_junction", k)
        asked = []
        for r in roads:
            asked.append({(k, w): r.try_ask("links.get_%s_%s" % (k, w)) for k in ("predecessor", "successor") for w in ("id", "type", "contact_point")})
        x = odr.xml()
        res = sut.run(p)
        for op, t, ok, before, after in steps:
            e = res.exc(t)
            if ok:
                require(e is None, "an allowed %s link was rejected: %s", op["op"], e and e[0])
            else:
                require(e is not None, "a %s link too many, or without direction, was accepted", op["op"])
                require("ValueError" in e, "a %s link too many, or without direction, raised %s", op["op"], e[0])
                d = first_difference(canon(parse(res[before])), canon(parse(res[after])))
                require(d is None, "a rejected %s link changed the road: %s", op["op"], d)
        doc = parse(res[x])
        byid = nets.roads_by_id(doc)
        for r, w, asks in zip(c["roads"], want, asked):
            for (kind, k), ref in asks.items():
                if res.exc(ref):
                    continue  # not part of the documented interface of a road
                a = dict(w).get(kind, {})
                v = {"id": a.get("elementId"), "type": a and {"enum": "ElementType." + a["elementType"]},
                     "contact_point": a.get("contactPoint") and {"enum": "ContactPoint." + a["contactPoint"]}}[k] or None
                got = res[ref] if k != "id" or res[ref] is None else str(res[ref])
                require(got == v, "the %s %s of road %s is %s, not %s", k, kind, r["id"], got, v)
            require(str(r["id"]) in byid, "road %s is not written", r["id"])
            el = byid[str(r["id"])]
            got = [(e.tag, dict(e.attrib)) for e in one(el, "link")]

            def key(t):
                return t[0], sorted(t[1].items())
            # only neighbours have an order among themselves
            require(sorted(got, key=key) == sorted(w, key=key), "road %s is linked to %s, not %s", r["id"], got, w)
            junction = -1 if r["junction"] is None else r["junction"]
            require(attr(el, "junction") == str(junction), "road %s belongs to junction %s, not %s", r["id"], el.get("junction"), junction)
            for k in ("name", "rule"):
                require(el.get(k) == r[k], "road %s has %s %r, not %r", r["id"], k, el.get(k), r[k])
        every = doc.findall("junction")
        require(len(every) == 1 + len(others), "%d junctions were added, %d are written", 1 + len(others), len(every))
        if others:
            labels.add("several junctions")
        for n in range(len(others)):
            k = [x for x in every if attr(x, "id") == str(1000 + n)]
            require(len(k) == 1 and attr(k[0], "name") == "further %d" % n, "junction %d is written %d times", 1000 + n, len(k))
            k = one(k[0], "connection")
            require((attr(k, "incomingRoad"), attr(k, "connectingRoad"), attr(k, "contactPoint"), attr(k, "id")) == (str(2000 + n), str(3000 + n), "start", str(n)),
                    "the connection of junction %d is written as %s", 1000 + n, k.attrib)
        [e] = [x for x in every if attr(x, "id") not in [str(1000 + n) for n in range(len(others))]] or [every[0]]
        require(attr(e, "id") == str(c["jid"]) and attr(e, "name") == c["jname"], "the junction is written as %s", e.attrib)
        got = e.findall("connection")
        require(len(got) == len(cons), "%d connections were added, %d are written", len(cons), len(got))
        for g, (q, i) in zip(got, cons):
            require((attr(g, "incomingRoad"), attr(g, "connectingRoad"), attr(g, "contactPoint")) == (str(q["in"]), str(q["conn"]), q["cp"]),
                    "connection %s is written as %s", q, g.attrib)
            if i is not None:
                require(attr(g, "id") == str(i), "connection %d is written with id %s", i, g.get("id"))
            ll = sorted((attr(l, "from"), attr(l, "to")) for l in g.findall("laneLink"))
            require(ll == sorted((str(a), str(b)) for a, b in q["links"]), "connection %s has lane links %s", q, ll)
            labels.add("connections")
        ids = [attr(g, "id") for g in got]
        require(len(set(ids)) == len(ids), "connection ids %s", ids)
        return Info(any(not ok for _, _, ok, _, _ in steps) or len(steps) > 2, sorted(labels))

    def whole(self, c, sut):
        """a document in which rejected links were tried is the document without them"""
        q = c["crossing"]
        conns = crossings.decode(q)
        docs, tried = [], []
        p = Prog()
        for attempts in ([], c["attempts"]):
            normal, conn, rid = crossings.build(p, q, conns)
            refs = normal + conn
            full = {"successor": set(range(len(normal), len(refs))), "predecessor": set(range(len(normal), len(refs)))}
            for k in conns:
                for i, e, _ in k["ends"]:
                    full["successor" if e == "end" else "predecessor"].add(i)

            def attempt(when):
                for a in attempts:
                    if a["when"] != when:
                        continue
                    args = [E("ElementType." + a["type"]), rid(a["id"])]
                    kw = {}
                    if a["op"] == "neighbor":  # without direction
                        i = a["road"] % len(refs)
                        args.append(None)
                    else:
                        there = sorted(full[a["op"]])
                        i = there[a["road"] % len(there)]
                        if a["cp"]:
                            args.append(E("ContactPoint." + a["cp"]))
                        if a["offset"] is not None:
                            kw["lane_offset"] = a["offset"]
                    tried.append((a, refs[i].try_call("add_" + a["op"], *args, **kw)))

            attempt("early")
            odr = p.new("OpenDrive", "crossing")
            for r in refs:
                odr.call("add_road", r)
            attempt("added")
            odr.call("adjust_roads_and_lanes")
            attempt("placed")
            if any(a["when"] == "placed" for a in c["attempts"]):
                odr.call("adjust_roads_and_lanes")
            odr.call("add_junction", p.new("create_junction", list(conn), q["junction"], list(normal)))
            docs.append(odr.xml())
        res = sut.run(p)
        for a, t in tried:
            e = res.exc(t)
            require(e is not None and "ValueError" in e, "a %s link too many, or without direction, raised %s", a["op"], e and e[0])
        a, b = [canon(parse(res[x]), drop={("header", "date")}) for x in docs]
        d = first_difference(a, b)
        require(d is None, "links that were rejected changed the document: %s", d)
        return Info(True, ["rejected while building"])


PROP = C22()
