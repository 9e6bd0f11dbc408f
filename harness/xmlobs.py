"""Reading what the library wrote; whatever is missing or malformed there is a violation, not a harness error."""
import math
import xml.etree.ElementTree as ET

from client import Violation


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def parse(text):
    try:
        return ET.fromstring(text)
    except ET.ParseError as e:
        raise Violation("not well-formed XML: %s" % e)


def attr(el, name):
    v = el.get(name)
    require(v is not None, "<%s> has no attribute %s (it has %s)", el.tag, name, sorted(el.keys()))
    return v


def tonum(text, what):
    try:
        v = float(text)
    except (TypeError, ValueError):
        raise Violation("%s is %r, which is not a number" % (what, text))
    require(math.isfinite(v), "%s is %r", what, text)
    return v


def num(el, name):
    return tonum(attr(el, name), "<%s %s>" % (el.tag, name))


def toint(text, what):
    try:
        return int(text)
    except (TypeError, ValueError):
        raise Violation("%s is %r, which is not an integer" % (what, text))


def one(el, tag):
    c = el.findall(tag)
    require(len(c) == 1, "<%s> has %d <%s> children, not one", el.tag, len(c), tag)
    return c[0]


def opt(el, tag):
    c = el.findall(tag)
    require(len(c) <= 1, "<%s> has %d <%s> children", el.tag, len(c), tag)
    return c[0] if c else None


def canon(el, drop=()):
    """A comparable form of an element: tag, attributes, children; text that is white space only is ignored."""
    text = (el.text or "").strip()
    return [el.tag, sorted((k, v) for k, v in el.attrib.items() if (el.tag, k) not in drop), text,
            [canon(c, drop) for c in el]]


def first_difference(a, b, path=""):
    """Two canon() forms: where they first differ, or None."""
    if a[0] != b[0]:
        return "%s: <%s> instead of <%s>" % (path, b[0], a[0])
    p = path + "/" + a[0]
    if a[1] != b[1]:
        da, db = dict(a[1]), dict(b[1])
        k = [k for k in sorted(set(da) | set(db)) if da.get(k) != db.get(k)][0]
        return "%s@%s: %r instead of %r" % (p, k, db.get(k), da.get(k))
    if a[2] != b[2]:
        return "%s text: %r instead of %r" % (p, b[2], a[2])
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        d = first_difference(x, y, "%s[%d]" % (p, i))
        if d:
            return d
    if len(a[3]) != len(b[3]):
        return "%s: %d children %s instead of %d %s" % (p, len(b[3]), [c[0] for c in b[3]], len(a[3]), [c[0] for c in a[3]])
    return None
