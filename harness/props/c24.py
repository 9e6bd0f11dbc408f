"""Showing a network starts the viewer on a file that contains it."""
import os

from hypothesis import strategies as st

import worlds
from base import Info, Prop
from client import Path, Prog
from props.c20 import DROP, parse_bytes
from xmlobs import canon, first_difference, parse, require

VIEWER = ("#!/bin/sh\nprintf '%s\\n' \"$0\" >> viewer.log\nfor a in \"$@\"; do printf '%s\\n' \"$a\" >> viewer.log; done\n"
          "for a in \"$@\"; do [ -f \"$a\" ] && cp \"$a\" shown.xml; done\nexit 0\n")
FOLDERS = [None, "esmini", "tools/esmini", "/tools/esmini", "./esmini", "esmini/", "tools/../esmini-2.0", "esmini.v2", "a/b/c_d", "/esmini,x+y@1=2%", "bin",
           "my esmini", "/esmini (1)/it's & that", "esmini;2", "esmini $x"]


class C24(Prop):
    quick, thorough = 500, 10000
    rule = ("1-3 whole documents are shown one after the other with run_road, in the default or other esmini folders (relative or "
            "absolute, the same or several) that hold a stand-in for the viewer, which records its arguments and a copy of the file. "
            "Sometimes os.name says Windows meanwhile: the command, if it can be built here, is judged too. Non-trivial: two documents, or a folder or density that is not the default.")
    assumptions = ["Under os.name 'nt' on this system nothing need be started."]
    must_cover = ("default folder", "other folder", "density", "several folders", "folder with shell characters")

    def strategy(self):
        show = st.fixed_dictionaries({"world": worlds.world(max_steps=2), "density": st.sampled_from([None, 0, 15, 40, 2.5]),
                                       "windows": st.sampled_from([False, False, False, True]), "folder": st.sampled_from(FOLDERS)})
        return st.fixed_dictionaries({"shows": st.lists(show, min_size=1, max_size=3), "folder": st.sampled_from(FOLDERS),
                                      "same": st.booleans()})

    def check(self, c, sut):
        p = Prog()
        made = set()
        folders = [c["folder"] if c.get("same", True) else s["folder"] for s in c["shows"]]
        for f in folders:
            rel = os.path.normpath((f or "esmini").lstrip("/"))
            if rel in made:
                continue
            made.add(rel)
            p.op("mkdir", Path(os.path.join(rel, "bin")))
            p.op("mkdir", Path(os.path.join(rel, "resources", "xodr")))
            if ".." in (f or ""):
                p.op("mkdir", Path("tools/there"))
            for name in ("odrviewer", "odrviewer.exe"):
                exe = Path(os.path.join(rel, "bin", name))
                p.op("writefile", exe, VIEWER)
                p.op("executable", exe)
        p.op("allow_system")
        out = []
        for s, f in zip(c["shows"], folders):
            b = worlds.build(p, s["world"])
            x = b.odr.xml()
            kw = {}
            if f is not None:
                kw["esminipath"] = Path(f.lstrip("/")) if f.startswith("/") else f
            if s["density"] is not None:
                kw["density"] = s["density"]
            for name in ("viewer.log", "shown.xml"):
                p.op("writefile", Path(name), "")
            if s.get("windows"):
                p._add("as_windows", "run_road", (b.odr,), kw)
            else:
                p.new("run_road", b.odr, **kw)
            out.append((s, f, x, p.op("readfile", Path("viewer.log"), obs=True), p.op("readfile", Path("shown.xml"), obs=True)))
        res = sut.run(p)
        labels = []
        for s, f, x, log, shown in out:
            args = res[log].split("\n")
            if args == [""] and s.get("windows"):
                continue  # it cannot do here what it does there
            require(args != [""], "the viewer was not started")
            rel = os.path.normpath((f or "esmini").lstrip("/"))

            def inside(path):  # of the folder; the scratch directory has any name
                path = os.path.normpath(path)
                return (os.sep + path).find(os.sep + rel + os.sep) >= 0 if path.startswith(os.sep) else path.startswith(rel + os.sep)

            require(inside(args[0]), "the viewer that was started is %s, the folder was %s", args[0], f)
            args = args[1:]
            require("--odr" in args, "the viewer was started with %s", args)
            require(inside(args[args.index("--odr") + 1]), "the viewer was started on %s, the folder was %s", args[args.index("--odr") + 1], f)
            require("--density" in args and args[args.index("--density") + 1] == str(15 if s["density"] is None else s["density"]),
                    "the viewer was started with %s, density %s", args, s["density"])
            d = first_difference(canon(parse(res[x]), DROP), canon(parse_bytes(res[shown]), DROP))
            require(d is None, "the viewer shows another document: %s", d)
        if any(set(f or "") & set(" ;'&$") for f in folders):
            labels.append("folder with shell characters")
        labels += ["default folder" if f in (None, "esmini") else "other folder" for f in folders]
        if len(made) > 1:
            labels.append("several folders")
        if any(s.get("windows") for s in c["shows"]):
            labels.append("os.name of Windows")
        if any(s["density"] is not None for s in c["shows"]):
            labels.append("density")
        return Info(len(out) > 1 or len(labels) > 1 or c["folder"], sorted(set(labels)))


PROP = C24()
