"""Whole documents as data: a network with names, lane types, road marks, objects, signals, neighbours and junctions."""
from hypothesis import strategies as st

import nets
import shapes
from client import E
from props import c17

# what XML can carry in an attribute unchanged: no controls, no surrogates, no non-characters
NAME = st.one_of(
    st.sampled_from(["my road", "a<b>&\"c'", "v\u00e4g \u4e2d\u6587", "]]>", "<!-- x -->", "&amp;", " two  spaces ", "a'b", "\U0001f6e3", "%s", "{}", "\\n"]),
    st.text(st.characters(blacklist_categories=["Cc", "Cs", "Cn", "Zl", "Zp"], max_codepoint=0x1FFFF), min_size=1, max_size=12))
FILE = st.sampled_from(["my road", "road", "a&b", "x.y", "quote's", "a b  c", "50%"])
LTYPES = ["driving", "shoulder", "sidewalk", "border", "biking", "none"]
MARKS = ["solid", "broken", "none", "curb", "solid_solid", "botts_dots"]


@st.composite
def item(draw):
    it = {"kind": draw(st.sampled_from(["Object", "Signal"])), "road": draw(st.integers(0, 20)), "name": draw(st.one_of(st.none(), NAME)),
          "s": draw(st.sampled_from([0, 1, 2.5])), "t": draw(st.sampled_from([0, 3, -4.25])), "id": draw(st.booleans()),
          "repeat": draw(st.sampled_from([0, 0, 1, 2]))}
    if draw(st.booleans()):  # any of the optional arguments
        full = draw(c17.signal() if it["kind"] == "Signal" else c17.obj())
        full["k"].pop("name", None)
        it["full"] = full
    return it


@st.composite
def world(draw, auto_ids=True, max_steps=4, name=NAME):
    return {
        "name": draw(name), "net": draw(nets.network(min_steps=0, max_steps=max_steps, max_extra=1)),
        "names": draw(st.lists(st.one_of(st.none(), NAME), max_size=4)),
        "rule": draw(st.sampled_from([None, "RHT", "LHT"])),
        "look": draw(st.lists(st.tuples(st.sampled_from(LTYPES), st.one_of(st.none(), st.sampled_from(MARKS)), st.booleans()).map(list), min_size=1, max_size=4)),
        "items": [dict(i, id=i["id"] or not auto_ids) for i in draw(st.lists(item(), max_size=4))],
        "neighbors": draw(st.lists(st.tuples(st.integers(0, 20), st.integers(0, 9), st.sampled_from(["same", "opposite"])).map(list), max_size=2)),
        "tables": draw(st.sampled_from(["made", "made", "hand", "none"])),
        "jname": draw(NAME), "inner": draw(st.booleans()), "roadside": draw(st.sampled_from([None, None, "both", "left", "right"])),
    }


class Built:
    pass


def add_item(p, b, it, name):
    kw = {}
    if it["id"]:
        kw["id"] = name
    if it["name"] is not None:
        kw["name"] = it["name"]
    i = it["road"] % len(b.roads)
    if it.get("full"):
        o = c17.build(p, it["full"], kw)
    elif it["kind"] == "Signal":
        o = p.new("Signal", it["s"], it["t"], "se", "c1", **kw)
    else:
        o = p.new("Object", it["s"], it["t"], E("ObjectType.pole"), height=1.5, **kw)
        for _ in range(it["repeat"]):
            o.call("repeat", 5, 1)
    b.roads[i].call("add_" + it["kind"].lower(), o)
    c17.repeat_later(o, it.get("full") or {})
    return it["kind"], i, o


def build(p, w, adjust=True, tag=""):
    """the program that makes the document; returns odr, roads, and the net"""
    b = Built()
    net = b.net = nets.decode(w["net"])
    b.roads = []
    n = 0
    b.marks = []
    for i, r in enumerate(net.roads):
        pv = p.new("PlanView", *r["pose"]) if r["pose"] is not None else p.new("PlanView")
        for g in r["geoms"]:
            pv.call("add_geometry", shapes.build(p, g))
        lanes = p.new("Lanes")
        prev = None
        for sec in r["sections"]:
            mine = {"left": [], "right": []}
            center = p.new("Lane", a=0)
            ls = p.new("LaneSection", sec["s"], center)
            for side in ("left", "right"):
                for _ in range(sec[side]):
                    kind, mark, line = w["look"][n % len(w["look"])]
                    n += 1
                    lane = p.new("Lane", lane_type=E("LaneType." + kind), a=3)
                    if mark:
                        kw = {"length": 2, "rule": E("MarkRule.no_passing")} if line else {}
                        lane.call("add_roadmark", p.new("RoadMark", E("RoadMarkType." + mark), 0.2, **kw))
                    ls.call("add_%s_lane" % side, lane)
                    mine[side].append(lane)
            if prev and w.get("inner"):
                linker = p.new("LaneLinker")
                for side in mine:
                    for before, after in zip(prev[side], mine[side]):
                        linker.call("add_link", before, after)
                lanes.call("add_lanesection", ls, linker)
            else:
                lanes.call("add_lanesection", ls)
            prev = mine
        kw = {}
        if i < len(w["names"]) and w["names"][i] is not None:
            kw["name"] = w["names"][i]
        if w["rule"]:
            kw["rule"] = w["rule"]
        if r["junction"] != -1:
            kw["road_type"] = r["junction"]
        b.roads.append(p.new("Road", r["id"], pv, lanes, **kw))
    nets.link(p, net, b.roads)
    count = {}
    for i, to, d in w["neighbors"]:
        i %= len(net.roads)
        if count.get(i, 0) < 2:
            count[i] = count.get(i, 0) + 1
            b.roads[i].call("add_neighbor", E("ElementType.road"), net.roads[to % len(net.roads)]["id"], E("Direction." + d))
    b.items = []
    for k, it in enumerate(w["items"]):
        b.items.append(add_item(p, b, it, "%s-%d" % (tag or "item", k)))
    b.odr = p.new("OpenDrive", w["name"])
    for r in b.roads:
        b.odr.call("add_road", r)
    b.junctions = {}
    if w["tables"] != "none":
        for jid in sorted(set(net.junction_ends.values())):
            con = [k for k, r in enumerate(net.roads) if r["junction"] == jid]
            inc = [i for (i, e), j in net.junction_ends.items() if j == jid]
            if w["tables"] == "made":
                j = p.new("create_junction", [b.roads[k] for k in con], jid, [b.roads[i] for i in inc])
            else:
                j = p.new("Junction", w["jname"], jid)
                for (a, ea, i, ei) in net.joints:
                    if a in con:
                        c = p.new("Connection", net.roads[i]["id"], net.roads[a]["id"], E("ContactPoint." + ea))
                        c.call("add_lanelink", -1, -1)
                        j.call("add_connection", c)
            b.odr.call("add_junction", j)
            b.junctions[jid] = (con, inc)
    if adjust:
        b.odr.call("adjust_roads_and_lanes")
        if w.get("roadside") and not tag:
            o = p.new("Object", 0, 0, E("ObjectType.railing"), height=0.5)
            b.roads[-1].call("add_object_roadside", o, 0, side=E("RoadSide." + w["roadside"]))
    return b
