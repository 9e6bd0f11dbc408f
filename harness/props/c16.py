"""The ids of objects and signals."""
from hypothesis import strategies as st

import nets
import shapes
from base import Info, Prop
from client import E, Prog
from xmlobs import attr, parse, require

IDS = st.one_of(st.none(), st.none(), st.integers(0, 6), st.integers(0, 6).map(str), st.sampled_from(["a", "7", "sign-1", 10]), st.sampled_from(nets.LOOKALIKES + ["00", "2 ", "002"]))


@st.composite
def history(draw):
    ops = []
    for _ in range(draw(shapes.count(12, 40, 1))):
        op = {"op": draw(st.sampled_from(["one", "one", "list", "list", "roadside"])), "kind": draw(st.sampled_from(["Object", "Signal"])),
              "road": draw(st.integers(0, 1))}
        if op["op"] == "roadside":
            op.update(kind="Object", ids=[draw(IDS)], side=draw(st.sampled_from(["both", "left", "right"])))
        else:
            op["ids"] = draw(st.lists(IDS, min_size=0 if op["op"] == "list" else 1, max_size=4 if op["op"] == "list" else 1))
        op["own"] = draw(st.booleans())
        op["early"] = draw(st.booleans())
        ops.append(op)
    return {"ops": ops, "look": draw(st.booleans())}


class C16(Prop):
    quick, thorough = 5000, 200000
    rule = ("A history of 1-40 additions of objects and signals to two roads - single, in lists, or along the roadside - with "
            "ids that are missing, numbers or text, many of them repeated; some are created before earlier additions, some lists are reused by the caller. "
            "Non-trivial: an id had to be made up, and an explicit one was repeated or collided with a made-up one.")
    assumptions = ["The same object is added once."]
    must_cover = ("repeated id", "automatic id", "roadside", "explicit id after the same automatic one", "both kinds with one id", "one list for all")

    def strategy(self):
        return history()

    def check(self, c, sut):
        p = Prog()
        roads = [nets.new_road(p, {"id": i, "junction": -1, "geoms": [{"kind": "line", "length": 100}], "pose": [0, 100 * i, 0],
                                   "sections": [{"s": 0, "left": 1, "right": 1}]}) for i in range(2)]
        odr = p.new("OpenDrive", "ids")
        for r in roads:
            odr.call("add_road", r)
        odr.call("adjust_roads_and_lanes")

        def make(op, i):
            kw = {} if i is None else {"id": i}
            name = "n%d" % len(names)
            names.append((name, op["kind"], i))
            if op["kind"] == "Object":
                return name, p.new("Object", 10, 2, E("ObjectType.pole"), name=name, **kw)
            return name, p.new("Signal", 10, 2, "se", "1", name=name, **kw)

        names = []
        shared = None
        early = [[make(op, i) for i in op["ids"]] if op["early"] and op["op"] != "roadside" else None for op in c["ops"]]
        xs = []
        added = []  # (kind, road, name, explicit id) in the order of addition
        for op, made in zip(c["ops"], early):
            made = made if made is not None else [make(op, i) for i in op["ids"]]
            r = roads[op["road"]]
            f = "add_" + op["kind"].lower()
            if op["op"] == "one":
                r.call(f, made[0][1])
            elif op["op"] == "list":
                if op.get("own", True):
                    r.call(f, p.op("list", *[{"$": m[1].name} for m in made]))
                else:  # the caller uses one list for everything, and goes on using it
                    if shared is None:
                        shared = p.op("list")
                    for m in made:
                        shared.call("append", m[1])
                    r.call(f, shared)
                    shared.call("clear")
            else:
                r.call("add_object_roadside", made[0][1], 10, side=E("RoadSide." + op["side"]))
                made = made * (2 if op["side"] == "both" else 1)
            added.append([(op["kind"], op["road"], name, i) for (name, _), i in zip(made, op["ids"] * (2 if op["op"] == "roadside" else 1))])
            if c["look"]:
                xs.append((len(added), odr.xml()))
        if not c["look"] or not xs:
            xs.append((len(added), odr.xml()))
        res = sut.run(p)
        labels = set()
        for n, x in xs:
            doc = nets.roads_by_id(parse(res[x]))
            hist = [a for h in added[:n] for a in h]
            got = {}
            for kind, tag in (("Object", "objects"), ("Signal", "signals")):
                for r in (0, 1):
                    els = [e for g in doc[str(r)].findall(tag) for e in g]
                    mine = [a for a in hist if a[0] == kind and a[1] == r]
                    require([e.get("name") for e in els] == [a[2] for a in mine], "road %d has the %s %s, added were %s", r, tag,
                            [e.get("name") for e in els], [a[2] for a in mine])
                    got[kind, r] = [attr(e, "id") for e in els]
            for kind in ("Object", "Signal"):
                every = got[kind, 0] + got[kind, 1]
                require(len(set(every)) == len(every), "%s ids are not unique: %s", kind, every)
                it = {r: iter(got[kind, r]) for r in (0, 1)}
                used = set()
                auto = set()
                for _, r, name, i in (a for a in hist if a[0] == kind):
                    g = next(it[r])
                    require(g not in ("None", ""), "%s %s has id %r", kind, name, g)
                    if i is not None and str(i) not in used:
                        require(g == str(i), "the unused id %r of a %s was replaced by %s", i, kind, g)
                    else:
                        labels.add("automatic id" if i is None else "repeated id")
                        auto.add(g)
                        if i is not None and str(i) in auto:
                            labels.add("explicit id after the same automatic one")
                    used.add(g)
            if set(got["Object", 0] + got["Object", 1]) & set(got["Signal", 0] + got["Signal", 1]):
                labels.add("both kinds with one id")
        # an id, once given, stays
        if len(xs) > 1:
            seen = {}
            for n, x in xs:
                for r in parse(res[x]).findall("road"):
                    for tag in ("objects", "signals"):
                        for g in r.findall(tag):
                            for k, e in enumerate(g):
                                key = (r.get("id"), tag, k)
                                require(seen.setdefault(key, e.get("id")) == e.get("id"), "the id of %s changed from %s to %s", e.get("name"), seen[key], e.get("id"))
            labels.add("watched")
        if any(op["op"] == "roadside" for op in c["ops"]):
            labels.add("roadside")
        if shared is not None:
            labels.add("one list for all")
        return Info("automatic id" in labels and "repeated id" in labels, sorted(labels))


PROP = C16()
