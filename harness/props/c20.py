"""What is written to a file or printed is the document."""
from hypothesis import strategies as st

import worlds
from base import Info, Prop
from client import E, Path, Prog
from xmlobs import attr, canon, first_difference, parse, require

DROP = {("header", "date")}


def parse_bytes(latin1):
    import xml.etree.ElementTree as ET
    from client import Violation
    try:
        return ET.fromstring(latin1.encode("latin-1"))
    except (ET.ParseError, ValueError, LookupError) as e:
        raise Violation("the file is not well-formed XML: %s" % e)


class C20(Prop):
    quick, thorough = 2200, 80000
    rule = ("A whole document (networks with names, marks, objects, signals, neighbours, junctions; names with XML specials and "
            "non-ASCII letters) is written 1-3 times, plain or pretty, to new, default or already existing files, and printed; some are long. "
            "The process runs with an ASCII locale. Non-trivial: more than one road, or an object or signal.")
    assumptions = ["Names do not contain control characters (tabs and line breaks included).",
                   "The generated file names are ASCII, as the locale of the process is."]
    must_cover = ("pretty", "plain", "default name", "overwritten", "non-ASCII", "XML specials", "printed", "long")

    def strategy(self):
        write = st.fixed_dictionaries({
            "to": st.sampled_from([None, "out.xodr", "sub dir/road.xml", "b"]), "pretty": st.sampled_from([None, True, False]),
            "before": st.sampled_from([None, None, 10, 200000]), "by": st.sampled_from(["write_xml", "write_xml", "printToFile"])})
        small = st.one_of(
            st.fixed_dictionaries({"world": worlds.world(name=worlds.FILE), "writes": st.lists(write, min_size=1, max_size=3), "print": st.booleans()}),
            st.fixed_dictionaries({"world": worlds.world(), "writes": st.lists(write.map(lambda w: dict(w, to=w["to"] or "c.xodr")), min_size=1, max_size=3),
                                   "print": st.booleans()}))
        bulk = st.tuples(st.sampled_from([[100, 1], [500, 1], [100, 150]]), worlds.NAME).map(lambda t: [t[0][0], t[1] * t[0][1]])
        return st.tuples(small, st.one_of([st.none()] * 39 + [bulk])).map(lambda t: dict(t[0], bulk=t[1]) if t[1] else t[0])

    def check(self, c, sut):
        p = Prog()
        b = worlds.build(p, c["world"])
        if c.get("bulk"):  # a long file
            for k in range(c["bulk"][0]):
                b.roads[0].call("add_object", p.new("Object", k, 3, name=c["bulk"][1]))
            labels_first = {"long"}
        else:
            labels_first = set()
        x = b.odr.xml()
        files = []
        labels = labels_first
        p.op("mkdir", Path("sub dir"))
        expect = set()
        for w in c["writes"]:
            fn = w["to"] or c["world"]["name"] + ".xodr"
            expect.add(fn)
            if w["before"]:
                p.op("writefile", Path(fn), "<x>" + "y" * w["before"])
                labels.add("overwritten")
            kw = {}
            if w["pretty"] is not None:
                kw["prettyprint"] = w["pretty"]
            labels.add("plain" if w["pretty"] is False else "pretty")
            if w["by"] == "printToFile":
                p.new("printToFile", b.odr.call("get_element"), Path(fn), **kw)
            elif w["to"] is None:
                b.odr.call("write_xml", **kw)
                labels.add("default name")
            else:
                b.odr.call("write_xml", Path(fn), **kw)
            files.append((fn, p.op("readfile", Path(fn), obs=True)))
        names = p.op("files", obs=True)
        printed = None
        if c["print"]:
            printed = p._add("stdout", "prettyprint", [b.odr.call("get_element")], {}, obs=True)
            labels.add("printed")
        y = b.odr.xml()
        res = sut.run(p)
        doc = parse(res[x])
        require(attr(doc.find("header"), "name") == c["world"]["name"], "the document is named %r", doc.find("header").get("name"))
        want = canon(doc, DROP)
        d = first_difference(want, canon(parse(res[y]), DROP))
        require(d is None, "writing changed the document: %s", d)
        for fn, ref in files:
            d = first_difference(want, canon(parse_bytes(res[ref]), DROP))
            require(d is None, "%s does not contain the document: %s", fn, d)
        require(set(res[names]) == expect, "the files are %s, not %s", res[names], sorted(expect))
        if printed is not None:
            d = first_difference(want, canon(parse(res[printed]), DROP))
            require(d is None, "what is printed is not the document: %s", d)
        text = res[x]
        if any(ord(ch) > 127 for ch in text):
            labels.add("non-ASCII")
        if "&lt;" in text or "&amp;" in text or "&quot;" in text:
            labels.add("XML specials")
        return Info(len(b.roads) > 1 or b.items, sorted(labels))


PROP = C20()
