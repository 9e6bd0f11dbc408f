"""What the helpers answer about roads."""
from hypothesis import strategies as st

import nets
import shapes
from base import Info, Prop
from client import E, Prog, Violation
from xmlobs import require

ID = st.one_of(st.integers(0, 12), st.integers(0, 300), st.sampled_from(["r", "a b", "\u00e5", "010", "r2"]), st.sampled_from(nets.LOOKALIKES))
W = shapes.pick(3, 2.5, 4, floats=st.floats(0.1, 10))


@st.composite
def world(draw):
    n = draw(st.integers(1, 6))
    ids = draw(st.lists(ID, min_size=n, max_size=n, unique_by=str))
    joints = []
    free = [(i, e) for i in range(n) for e in nets.ENDS]
    for _ in range(draw(st.integers(0, n))):
        if len(free) < 2:
            break
        a = free.pop(draw(st.integers(0, 11)) % len(free))
        b = free.pop(draw(st.integers(0, 11)) % len(free))
        joints.append([a[0], a[1], b[0], b[1]])
    # links that are not returned, as in a fork made without a junction
    oneway = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        if free:
            a = free.pop(draw(st.integers(0, 11)) % len(free))
            oneway.append([a[0], a[1], draw(st.integers(0, n - 1)), draw(st.sampled_from(nets.ENDS))])
    # ends that lead into a junction, often one with the id of a road
    into = [[i, e, draw(st.sampled_from(ids + [77]))] for i, e in free if draw(st.integers(0, 2)) == 0]
    secs = []
    for _ in range(n):
        lanes = [[k, k] for k in draw(shapes.few(st.integers(1, 4), 3, 8))]
        w = draw(W)
        # sections of their own widths
        ws = [draw(W) for _ in lanes] if draw(st.booleans()) else [w] * len(lanes)
        secs.append({"widths": ws, "lanes": lanes, "junction": draw(st.sampled_from([-1, -1, -1, -1, 0, 5]))})
    lists = []
    for _ in range(draw(st.integers(1, 4))):
        lists.append({"roads": draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True)), "id": draw(st.one_of(st.sampled_from(ids), st.sampled_from(ids), ID)),
                      "text": draw(st.booleans())})
    offsets = [{"a": draw(st.integers(0, n - 1)), "at": draw(st.sampled_from(nets.ENDS)),
                # a road of one section that has as many lanes there, or one more or less on a side
                "width": draw(W), "more": draw(st.sampled_from([None, None, None, [1, 0], [0, 1], [-1, 0], [0, -1], [1, 1]]))}
               for _ in range(draw(st.integers(1, 4)))]
    return {"ids": ids, "joints": joints, "into": into, "oneway": oneway, "secs": secs, "lists": lists, "offsets": offsets, "linktext": draw(st.booleans())}


class C26(Prop):
    quick, thorough = 3000, 120000
    rule = ("1-6 roads with ids of any kind, 1-8 lane sections of 1-4 lanes per side, linked at random ends, rings and roads linked to "
            "themselves included, some only from one of the two, or led into junctions that may have the id of a road; all pairs are asked for whether they are consecutive, "
            "1-4 lists for a road, 1-4 pairs for their lanes. Non-trivial: some pair is consecutive, or a road is found.")
    assumptions = ["Links have contact points. As the documentation of get_lanes_offset says, as many lanes to the left as to the right, all "
                   "of one width in a section; the second road has one section."]
    must_cover = ("consecutive", "linked otherwise", "found", "not found", "end of several sections", "start of several sections", "other lanes", "one way", "junction with the id of a road",
                  "connecting road found", "sections of different widths")

    def strategy(self):
        return world()

    def check(self, c, sut):
        p = Prog()
        labels = set()
        ids = c["ids"]
        n = len(ids)

        def build(i, secs, ws, junction=-1):
            return nets.new_road(p, {"id": i, "junction": junction, "geoms": [{"kind": "line", "length": 10}], "pose": (0, 0, 0),
                                     "sections": [{"s": 10.0 * k / len(secs), "left": [ws[k]] * a, "right": [ws[k]] * b} for k, (a, b) in enumerate(secs)]})
        roads = [build(ids[i], s["lanes"], s["widths"], s["junction"]) for i, s in enumerate(c["secs"])]

        def add(i, e, kind, what, *a):
            roads[i].call("add_successor" if e == "end" else "add_predecessor", E("ElementType." + kind), str(what) if c["linktext"] else what, *a)
        for a, ea, b, eb in c["joints"]:
            add(a, ea, "road", ids[b], E("ContactPoint." + eb))
            add(b, eb, "road", ids[a], E("ContactPoint." + ea))
        for a, ea, b, eb in c["oneway"]:
            add(a, ea, "road", ids[b], E("ContactPoint." + eb))
            labels.add("one way")
        for i, e, j in c["into"]:
            add(i, e, "junction", j)
            if j != 77:
                labels.add("junction with the id of a road")
        pairs = {(i, j): p.ask("are_roads_consecutive", roads[i], roads[j]) for i in range(n) for j in range(n)}
        found = []
        for q in c["lists"]:
            r = p.new("get_road_by_id", [roads[i] for i in q["roads"]], str(q["id"]) if q["text"] else q["id"])
            there = any(str(ids[i]) == str(q["id"]) for i in q["roads"])
            found.append((q, there, r.try_ask("get_attributes"), p.op("same", r, None, obs=True)))
        offs = []
        for q in c["offsets"]:
            s = c["secs"][q["a"]]
            at = -1 if q["at"] == "end" else 0
            k = s["lanes"][at]
            d = q["more"] or [0, 0]
            other = build("other", [[k[0] + d[0], k[1] + d[1]]], [q["width"]])
            # the library looks at one lane of the first road; its sides are equal
            offs.append((q, k[0], s["widths"][at], p.try_ask("get_lanes_offset", roads[q["a"]], other, E("ContactPoint." + q["at"]))))
        res = sut.run(p)
        to = {}
        for a, ea, b, eb in c["joints"]:
            to[a, ea], to[b, eb] = (b, eb), (a, ea)
            if ea == eb:
                labels.add("linked otherwise")
        for a, ea, b, eb in c["oneway"]:
            to[a, ea] = b, eb
        want = {(i, j) for i in range(n) for j in range(n) if to.get((i, "end")) == (j, "start") and to.get((j, "start")) == (i, "end")}
        for k, ref in pairs.items():
            require(bool(res[ref]) is (k in want), "are_roads_consecutive answers %r for roads %s and %s; linked are %s", res[ref], ids[k[0]], ids[k[1]],
                    [(ids[a], ea, ids[b], eb) for (a, ea), (b, eb) in sorted(to.items())])
        if want:
            labels.add("consecutive")
        for q, there, ref, none in found:
            if there:
                require(res.exc(ref) is None, "road %r is not found among %s", q["id"], [ids[i] for i in q["roads"]])
                got = dict((k, v) for k, v in res[ref]["dict"])
                require(got.get("id") == str(q["id"]), "road %s is found in place of %s", got.get("id"), q["id"])
                labels.add("found")
                if next(c["secs"][i]["junction"] for i in q["roads"] if str(ids[i]) == str(q["id"])) != -1:
                    labels.add("connecting road found")
            else:
                require(res[none], "a road is found for the id %r among %s", q["id"], [ids[i] for i in q["roads"]])
                labels.add("not found")
        for q, k, w, ref in offs:
            e = res.exc(ref)
            if q["more"]:
                require(e is not None, "get_lanes_offset accepts roads with different numbers of lanes")
                require("NotSameAmountOfLanesError" in e, "roads with different numbers of lanes: %s was raised", e[0])
                labels.add("other lanes")
            else:
                if e is not None:
                    raise Violation("get_lanes_offset raised %s: %s" % (e[0], res.excmsg(ref)))
                require(list(res[ref]) == [k, w], "get_lanes_offset answers %s at the %s of a road with lanes %s of width %r", res[ref], q["at"],
                        c["secs"][q["a"]]["lanes"], w)
                if len(set(c["secs"][q["a"]]["widths"])) > 1:
                    labels.add("sections of different widths")
                if len(c["secs"][q["a"]]["lanes"]) > 1:
                    labels.add("%s of several sections" % q["at"])
        return Info(bool(want) or "found" in labels, sorted(labels))


PROP = C26()
