"""Lanes and lane links as written."""
from xmlobs import attr, num, one, opt, require, toint


class WLane:
    def __init__(self, el, several=False):
        self.el = el
        self.id = toint(attr(el, "id"), "<lane id>")
        w = el.findall("width")
        require(len(w) == 1, "lane %d has %d <width> children", self.id, len(w))
        self.width = [num(w[0], k) for k in "abcd"]
        self.links = {"predecessor": None, "successor": None}
        self.all = {"predecessor": [], "successor": []}  # lanes that split or merge have several
        link = opt(el, "link")
        for c in link if link is not None else ():
            require(c.tag in self.links, "<%s> in the link of lane %d", c.tag, self.id)
            self.all[c.tag].append(toint(attr(c, "id"), "<%s id>" % c.tag))
            require(several or self.links[c.tag] is None, "lane %d has two <%s> links", self.id, c.tag)
            self.links[c.tag] = toint(attr(c, "id"), "<%s id>" % c.tag)


class WSection:
    def __init__(self, el):
        self.el = el
        self.s = num(el, "s")
        self.left, self.right = [], []
        for side in ("left", "right"):
            e = opt(el, side)
            if e is not None:
                setattr(self, side, [WLane(x) for x in e.findall("lane")])
        c = one(el, "center").findall("lane")
        require(len(c) == 1, "a lane section has %d center lanes", len(c))
        self.center = WLane(c[0])
        self.lanes = {}
        for lane in self.left + self.right:
            require(lane.id not in self.lanes, "lane id %d occurs twice in a section", lane.id)
            self.lanes[lane.id] = lane


def sections(road_el):
    return [WSection(e) for e in one(road_el, "lanes").findall("laneSection")]


def at_end(secs, end):
    return secs[0 if end == "start" else -1]
