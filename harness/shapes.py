"""Geometries as data: generation, construction through the API, and their meaning computed independently."""
import math

from hypothesis import strategies as st

import curves


def pick(*nice, floats):
    return st.one_of(st.sampled_from(list(nice)), floats)


def few(element, most, rarely, least=1):
    """a list of up to most elements, now and then a longer one"""
    some = st.lists(element, min_size=least, max_size=most)
    return st.one_of([some] * 9 + [st.lists(element, min_size=most + 1, max_size=rarely)])


def count(most, rarely, least=0):
    """a number up to most, now and then a bigger one"""
    return st.one_of([st.integers(least, most)] * 9 + [st.integers(most + 1, rarely)])


LENGTH = st.one_of([pick(1, 5, 10, 20, 50, 100, 0.5, 30.25, 1234.5, floats=st.floats(0.05, 300))] * 24 + [st.sampled_from([12345.678, 0.0123])])
SIGN = st.sampled_from([1, -1])
HEADING = pick(0, 1, math.pi / 2, math.pi, -math.pi / 2, 2 * math.pi, floats=st.floats(-7, 7))
COORD = st.one_of([pick(0, 10, -25, 100.5, floats=st.floats(-1000, 1000))] * 14 + [st.sampled_from([512345.678, 4567890.125, -98765.4321])])
POSE = st.tuples(COORD, COORD, HEADING).map(list)
CURV = st.tuples(SIGN, pick(0.01, 0.1, 0.05, 0.002, 0.2, floats=st.floats(1e-4, 0.4))).map(lambda t: t[0] * t[1])
TURN = pick(math.pi / 2, math.pi, 1, 0.3, 2 * math.pi, floats=st.floats(0.01, 7))


def line():
    return LENGTH.map(lambda L: {"kind": "line", "length": L})


@st.composite
def arc(draw, any_sign=True):
    k = draw(CURV)
    how = draw(st.sampled_from(["length", "angle"]))
    a = draw(TURN)
    g = {"kind": "arc", "curvature": k}
    if how == "length":
        g["length"] = a / abs(k)
    else:
        g["angle"] = math.copysign(a, draw(SIGN) if any_sign else k)
    return g


@st.composite
def spiral(draw):
    k0 = draw(st.one_of(st.sampled_from([0, 1e-9, 0.0001, 0.01]), CURV))
    near = draw(st.sampled_from(["free", "free", "free", "same sign", "near", "equal"]))
    if near == "free":
        k1 = draw(st.one_of(st.sampled_from([0, 1e-9, 0.05]), CURV))
    elif near == "same sign":
        k1 = math.copysign(draw(CURV), k0)
    elif near == "equal":
        k1 = k0
    else:
        k1 = k0 + draw(SIGN) * 10.0 ** -draw(st.floats(3, 17))
    turn = draw(TURN)
    g = {"kind": "spiral", "curvstart": k0, "curvend": k1}
    how = draw(st.sampled_from(["length", "length", "angle", "cdot"]))
    m = max(abs(k0), abs(k1))
    length = min(turn / m if m else 50.0, 400.0)
    if how == "angle" and k0 * k1 >= 0 and m > 1e-8:
        g["angle"] = abs(k0 + k1) / 2 * length * draw(SIGN)
    elif how == "cdot" and abs(k1 - k0) > 1e-3 * m:
        g["cdot"] = (k1 - k0) / length
    else:
        g["length"] = length
    return g


@st.composite
def poly(draw, tangent=True):
    """A regular curve: its u-speed stays above 0.3 of the initial one (before a rotation, when tangent is False)."""
    arclen = draw(st.booleans())
    L = draw(pick(10, 50, 1, floats=st.floats(0.5, 100)))
    n = st.floats(-1, 1)
    half = pick(0, floats=n)
    cu, du = draw(half) * 0.17 * L, draw(half) * 0.11 * L
    cv, dv = draw(half) * 0.8 * L, draw(half) * 0.5 * L
    c = [0, L, cu, du, 0, 0, cv, dv]
    if not tangent:
        c[5] = draw(half) * L
        phi = draw(st.one_of(st.just(0.0), HEADING))
        co, si = math.cos(phi), math.sin(phi)
        c = [0.0] + [co * c[i] - si * c[4 + i] for i in (1, 2, 3)] + [0.0] + [si * c[i] + co * c[4 + i] for i in (1, 2, 3)]
        c[0], c[4] = draw(half) * 5, draw(half) * 5
    if arclen:  # the same curve in terms of p = L * normalized p
        for i in (1, 2, 3):
            c[i] /= L ** i
            c[4 + i] /= L ** i
        return {"kind": "poly", "c": c, "prange": "arcLength", "length": L}
    g = {"kind": "poly", "c": c, "prange": "normalized"}
    if draw(st.integers(0, 4)) == 0:  # a length that is not used for this range
        g["unused"] = draw(st.sampled_from([1, 3.5, 200]))
    return g


def geom(**kw):
    return st.one_of(line(), arc(**kw), spiral(), poly())


def simple_geom():
    """cheap and short, for networks"""
    return st.one_of(
        st.sampled_from([10, 50, 100.5]).map(lambda L: {"kind": "line", "length": L}),
        line(), arc(), spiral(), poly())


def build(p, g):
    k = g["kind"]
    if k == "line":
        return p.new("Line", g["length"])
    if k == "arc":
        return p.new("Arc", g["curvature"], **{x: g[x] for x in ("length", "angle") if x in g})
    if k == "spiral":
        return p.new("Spiral", g["curvstart"], g["curvend"], **{x: g[x] for x in ("length", "angle", "cdot") if x in g})
    if "unused" in g:
        return p.new("ParamPoly3", *g["c"], prange=g["prange"], length=g["unused"])
    if "length" in g:
        return p.new("ParamPoly3", *g["c"], prange=g["prange"], length=g["length"])
    if g.get("defaulted"):
        return p.new("ParamPoly3", *g["c"])
    return p.new("ParamPoly3", *g["c"], prange=g["prange"])


def length(g):
    k = g["kind"]
    if "length" in g:
        return g["length"]
    if k == "arc":
        return abs(g["angle"] / g["curvature"])
    if k == "spiral":
        if "angle" in g:
            return 2 * abs(g["angle"]) / abs(g["curvstart"] + g["curvend"])
        return (g["curvend"] - g["curvstart"]) / g["cdot"]
    return curves.poly_length(g["c"])


def end(g, x, y, h):
    k = g["kind"]
    if k == "line":
        return curves.clothoid(x, y, h, 0.0, 0.0, g["length"])
    if k == "arc":
        return curves.clothoid(x, y, h, g["curvature"], g["curvature"], length(g))
    if k == "spiral":
        return curves.clothoid(x, y, h, g["curvstart"], g["curvend"], length(g))
    return curves.poly_end(x, y, h, g["c"], g.get("length", 1.0) if g["prange"] == "arcLength" else 1.0)


def chain_end(gs, x, y, h):
    for g in gs:
        x, y, h = end(g, x, y, h)
    return x, y, h


def label(g):
    if g["kind"] == "poly":
        return "poly " + g["prange"]
    if g["kind"] == "spiral" and "length" in g and g["curvstart"] and \
            0 < abs(g["curvend"] - g["curvstart"]) < 1e-3 * abs(g["curvstart"]):
        return "spiral near-equal curvatures"
    return g["kind"] + "".join(" by " + x for x in ("angle", "cdot") if x in g)
