"""OpenDRIVE plan view elements, evaluated independently of the library (numerical integration of the heading)."""
import cmath
import math

import numpy as np

from client import Violation
from xmlobs import attr, num, one, require

_X, _W = np.polynomial.legendre.leggauss(16)


def integrate(f, a, b, panels):
    """Gauss-Legendre with 16 nodes on each of so many equal panels; f takes an array."""
    edges = np.linspace(a, b, panels + 1)
    half = (edges[1:] - edges[:-1]) / 2
    mid = (edges[1:] + edges[:-1]) / 2
    s = mid[:, None] + half[:, None] * _X[None, :]
    return complex((f(s) * _W[None, :] * half[:, None]).sum())


def clothoid(x, y, h, k0, k1, length):
    """End of the curve whose curvature goes linearly from k0 to k1."""
    turn = (abs(k0) + abs(k1)) * length
    panels = max(2, int(math.ceil(turn)))
    c = (k1 - k0) / length / 2 if length else 0.0
    d = integrate(lambda s: np.exp(1j * (k0 * s + c * s * s)), 0.0, length, panels)
    z = complex(x, y) + cmath.exp(1j * h) * d
    return z.real, z.imag, h + (k0 + k1) / 2 * length


def poly_eval(c, p):
    """c: (aU,bU,cU,dU,aV,bV,cV,dV) -> (u, v, du, dv) at p"""
    au, bu, cu, du, av, bv, cv, dv = c
    return (au + p * (bu + p * (cu + p * du)), av + p * (bv + p * (cv + p * dv)),
            bu + p * (2 * cu + 3 * p * du), bv + p * (2 * cv + 3 * p * dv))


def poly_length(c, p=1.0):
    def speed(s):
        _, _, du, dv = poly_eval(c, s)
        return np.hypot(du, dv)
    return integrate(speed, 0.0, p, 24).real


def poly_end(x, y, h, c, p):
    u, v, du, dv = poly_eval(c, p)
    return (x + u * math.cos(h) - v * math.sin(h), y + u * math.sin(h) + v * math.cos(h), h + math.atan2(dv, du))


class Geom:
    """One <geometry> element as written."""

    def __init__(self, el):
        self.s, self.x, self.y, self.h, self.length = (num(el, k) for k in ("s", "x", "y", "hdg", "length"))
        require(len(el) == 1, "<geometry> has %d children, not one", len(el))
        sh = el[0]
        self.kind = sh.tag
        if sh.tag == "line":
            self.par = ()
        elif sh.tag == "arc":
            self.par = (num(sh, "curvature"),)
        elif sh.tag == "spiral":
            self.par = (num(sh, "curvStart"), num(sh, "curvEnd"))
        elif sh.tag == "paramPoly3":
            self.par = tuple(num(sh, k) for k in ("aU", "bU", "cU", "dU", "aV", "bV", "cV", "dV"))
            self.prange = attr(sh, "pRange")
            require(self.prange in ("normalized", "arcLength"), "pRange is %r", self.prange)
        else:
            raise Violation("<geometry> contains <%s>" % sh.tag)

    def end(self):
        if self.kind == "line":
            return clothoid(self.x, self.y, self.h, 0.0, 0.0, self.length)
        if self.kind == "arc":
            return clothoid(self.x, self.y, self.h, self.par[0], self.par[0], self.length)
        if self.kind == "spiral":
            return clothoid(self.x, self.y, self.h, self.par[0], self.par[1], self.length)
        p = 1.0 if self.prange == "normalized" else self.length
        return poly_end(self.x, self.y, self.h, self.par, p)


def planview(road_el):
    return [Geom(g) for g in one(road_el, "planView").findall("geometry")]


def angle_diff(a, b):
    d = math.fmod(a - b, 2 * math.pi)
    if d > math.pi:
        d -= 2 * math.pi
    if d < -math.pi:
        d += 2 * math.pi
    return abs(d)


POS_TOL = 5e-6
ANG_TOL = 1e-7


def same_pose(a, b, scale, what, pos_tol=POS_TOL, ang_tol=ANG_TOL):
    """Equal positions, and headings equal up to whole turns."""
    tol = pos_tol + 1e-9 * scale
    d = math.hypot(a[0] - b[0], a[1] - b[1])
    require(d <= tol, "%s: (%r, %r) and (%r, %r) are %.3g apart", what, a[0], a[1], b[0], b[1], d)
    e = angle_diff(a[2], b[2])
    require(e <= ang_tol + 1e-12 * scale, "%s: headings %r and %r differ by %.3g", what, a[2], b[2], e)


def pose(v, what="a pose"):
    """x, y, heading as returned by the API"""
    require(isinstance(v, list) and len(v) >= 3, "%s is %r", what, v)
    out = []
    for c in v[:3]:
        require(isinstance(c, (int, float)) and not isinstance(c, bool), "%s is %r", what, v)
        out.append(float(c))
    return tuple(out)
