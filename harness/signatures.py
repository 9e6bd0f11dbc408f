"""The public calls that have optional arguments, in the documented order: the same call can be made by position."""
OPTIONAL = {
    "Arc": [["curvature"], ["length", None], ["angle", None]],
    "Connection": [["incoming_road"], ["connecting_road"], ["contact_point"], ["id", None]],
    "Lane": [["lane_type", {"enum": "LaneType.driving"}], ["a", 0], ["b", 0], ["c", 0], ["d", 0], ["soffset", 0]],
    "Object": [["s"], ["t"], ["Type", {"enum": "ObjectType.none"}], ["subtype", None], ["id", None], ["name", None],
               ["dynamic", {"enum": "Dynamic.no"}], ["zOffset", 0], ["orientation", {"enum": "Orientation.none"}], ["hdg", 0], ["pitch", 0],
               ["roll", 0], ["width", None], ["length", None], ["height", None], ["radius", None], ["validLength", None]],
    "ParamPoly3": [["au"], ["bu"], ["cu"], ["du"], ["av"], ["bv"], ["cv"], ["dv"], ["prange", "normalized"], ["length", None]],
    "PlanView": [["x_start", None], ["y_start", None], ["h_start", None]],
    "Road": [["road_id"], ["planview"], ["lanes"], ["road_type", -1], ["name", None], ["rule", None]],
    "RoadLine": [["width", 0], ["length", 0], ["space", 0], ["toffset", 0], ["soffset", 0], ["rule", None], ["color", None]],
    "RoadMark": [["marking_type"], ["width", None], ["length", None], ["space", None], ["toffset", None], ["soffset", 0], ["rule", None],
                 ["color", {"enum": "RoadMarkColor.standard"}], ["marking_weight", {"enum": "RoadMarkWeight.standard"}], ["height", 0.02],
                 ["laneChange", None]],
    "Signal": [["s"], ["t"], ["country"], ["Type"], ["subtype", "-1"], ["id", None], ["name", None], ["dynamic", {"enum": "Dynamic.no"}],
               ["value", None], ["unit", None], ["zOffset", 1.5], ["orientation", {"enum": "Orientation.positive"}], ["hOffset", 0], ["pitch", 0],
               ["roll", 0], ["height", None], ["width", None]],
    "Spiral": [["curvstart"], ["curvend"], ["length", None], ["angle", None], ["cdot", None]],
    "create_cloth_arc_cloth": [["arc_curv"], ["arc_angle"], ["cloth_angle"], ["r_id"], ["junction", 1], ["cloth_start", 1e-09], ["n_lanes", 1],
                               ["lane_offset", 3]],
    "create_junction_roads": [["roads"], ["angles"], ["r"], ["junction", 1], ["spiral_part", 1 / 3], ["arc_part", 1 / 3], ["startnum", 100]],
    "create_road": [["geometry"], ["id"], ["left_lanes", 1], ["right_lanes", 1], ["road_type", -1]],
    "create_straight_road": [["road_id"], ["length", 100], ["junction", -1], ["n_lanes", 1], ["lane_offset", 3]],
    "printToFile": [["element"], ["filename"], ["prettyprint", True]],
    "run_road": [["opendrive"], ["esminipath", "esmini"], ["density", 15]],
    "add_lanesection": [["lanesection"], ["lanelinks", None]],
    "repeat": [["repeatLength"], ["repeatDistance"], ["sStart", None], ["tStart", None], ["tEnd", None], ["heightStart", None], ["heightEnd", None],
               ["zOffsetStart", None], ["zOffsetEnd", None], ["widthStart", None], ["widthEnd", None], ["lengthStart", None], ["lengthEnd", None],
               ["radiusStart", None], ["radiusEnd", None]],
    "write_xml": [["filename", None], ["prettyprint", True]],
    "add_geometry": [["geom"], ["heading", None]],
    "set_start_point": [["x_start", 0], ["y_start", 0], ["h_start", 0]],
    "add_object_roadside": [["road_object_prototype"], ["repeatDistance"], ["sOffset", 0], ["tOffset", 0], ["side", {"enum": "RoadSide.both"}]],
    "add_predecessor": [["element_type"], ["element_id"], ["contact_point", None], ["lane_offset", 0]],
    "add_successor": [["element_type"], ["element_id"], ["contact_point", None], ["lane_offset", 0]],
}


def by_position(step):
    """The same call with its keyword arguments by position, those between them at their documented defaults."""
    sig, k = OPTIONAL.get(step.get("f")), step.get("k")
    if not sig or not k or step["op"] not in ("new", "call"):
        return step
    a = list(step.get("a", []))
    rest = dict(k)
    for p in sig[len(a):]:
        if not rest:
            break
        if p[0] in rest:
            a.append(rest.pop(p[0]))
        elif len(p) > 1:
            a.append(p[1])
        else:
            return step
    if rest:
        return step
    out = {x: y for x, y in step.items() if x != "k"}
    out["a"] = a
    return out


PLAIN = {"Line", "Arc", "Spiral", "ParamPoly3", "PlanView", "Lane", "RoadMark", "LaneSection", "Lanes", "LaneLinker", "Road", "OpenDrive", "Object",
         "Signal", "Junction", "Connection"}
FRAME = {"add_road", "add_junction"}
FILL = {"add_geometry", "add_left_lane", "add_right_lane", "add_roadmark", "add_lanesection", "add_link", "add_lanelink", "add_connection", "repeat",
        "add_successor", "add_predecessor", "add_neighbor", "add_object", "add_signal"}


def filled_late(steps):
    """The same document, in which the roads are added before they are given their geometries, lanes and links.

    Applies to what comes before the first call of another kind; the calls of each group keep their order among themselves."""
    new, frame, fill = [], [], []
    for n, s in enumerate(steps):
        op, f = s["op"], s.get("f")
        if s.get("may") or s.get("obs"):
            break
        if (op == "new" and f in PLAIN) or op == "list":
            new.append(s)
        elif op == "call" and f in FRAME:
            frame.append(s)
        elif op == "call" and f in FILL:
            fill.append(s)
        else:
            break
    else:
        n = len(steps)
    return new + frame + fill + steps[n:]
