"""Any kind of network: grown, a ring, or a highway with lane offsets."""
from hypothesis import strategies as st

import nets
from props import c05, c13


@st.composite
def network(draw, **kw):
    kind = draw(st.sampled_from(["net", "net", "net", "chain", "ring", "highway", "highway"]))
    if kind == "net":
        return {"net": draw(nets.network(**kw))}
    if kind == "chain":
        return {"net": draw(nets.chain())}
    return draw(c05.ring() if kind == "ring" else c13.highway())


def decode(c, at_root=False):
    """at_root: an explicit start belongs to the first road"""
    kw = {"pose_at": 0} if at_root else {}
    if "net" in c:
        return nets.decode(dict(c["net"], **kw))
    return c05.ring_net(dict(c, **kw)) if "ring" in c else c13.highway_net(dict(c, **kw))


def labels(c, net):
    return ["ring" if "ring" in c else ("network" if len(c["net"]["steps"]) < 7 else "chain") if "net" in c else "highway"] + (["via junction"] if net.junction_ends else [])
