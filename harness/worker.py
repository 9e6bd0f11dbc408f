"""Runs programs of API calls against the pyodrx in /repo, on the project's own interpreter (/opt/venv).

Protocol: one JSON request per line on stdin, one JSON answer per line on the original stdout.
A request is {"steps": [...], "observe": [...]}; every request runs against a freshly executed copy of the
pyodrx package, in an empty scratch directory, so that no state is carried from one request to the next.
Works on Python 3.9 (PyPy) and later; uses nothing but the standard library and pyodrx itself.
"""
import enum
import importlib
import importlib.abc
import importlib.util
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import xml.etree.ElementTree as ET

REPO = os.environ.get("VERIF_REPO", "/repo")
CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "25"))
MEMORY = 6 << 30
PKG = "pyodrx"
sys.dont_write_bytecode = True
REAL_SYSTEM = os.system


class CaseTimeout(BaseException):
    pass


class CachedSource(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Finds pyodrx in REPO, and compiles each of its files once per process."""

    def __init__(self):
        self.code = {}

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *name.split("."))
        for fn, ispkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(fn):
                spec = importlib.util.spec_from_loader(name, self, origin=fn, is_package=ispkg)
                spec.has_location = True
                return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        if fn not in self.code:
            with open(fn, "rb") as fh:
                self.code[fn] = compile(fh.read(), fn, "exec", dont_inherit=True)
        exec(self.code[fn], module.__dict__)


def fresh():
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[m]
    return importlib.import_module(PKG)


def resolve(obj, path):
    for part in path.split("."):
        obj = getattr(obj, part)
    return obj


def plain(v, depth=0):
    """An API result as JSON: numbers, strings, None, booleans and sequences of these."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return float(v) if v == v and v not in (float("inf"), float("-inf")) else {"nonfinite": str(v)}
    if isinstance(v, enum.Enum):
        return {"enum": "%s.%s" % (type(v).__name__, v.name)}
    if isinstance(v, (list, tuple)) and depth < 4:
        return [plain(x, depth + 1) for x in v]
    if isinstance(v, dict) and depth < 4:
        return {"dict": [[plain(k, depth + 1), plain(x, depth + 1)] for k, x in v.items()]}
    if hasattr(v, "item") and getattr(v, "shape", None) == ():
        return plain(v.item(), depth + 1)
    return {"object": type(v).__name__}


LOOKS = ("get_attributes", "get_element", "get_total_length", "get_start_point", "get_end_point")


class CallerListChanged(Exception):
    pass


class Case:
    def __init__(self, pkg, scratch, numbers=None, look=False, twice=False):
        self.pkg = pkg
        self.scratch = scratch
        self.env = {}
        self.system_calls = []
        self.numbers = numbers
        self.lists = {}
        self.look = look  # look at everything in between
        self.twice = twice  # adjust everything twice

    def arg(self, a):
        """equal lists are one list, as when a variable is passed to several calls"""
        if isinstance(a, list):
            key = json.dumps(a)
            if key not in self.lists:
                self.lists[key] = self.dec(a)
            return self.lists[key]
        return self.dec(a)

    def dec(self, a):
        if isinstance(a, list):
            return [self.dec(x) for x in a]
        if isinstance(a, dict):
            if "$" in a:
                return self.env[a["$"]]
            if "enum" in a:
                return resolve(self.pkg, a["enum"])
            if "path" in a:
                return os.path.join(self.scratch, a["path"])
            raise KeyError("bad argument encoding")
        if self.numbers == "numpy" and type(a) is float:
            import numpy
            return numpy.float64(a)
        return a

    def step(self, st):
        op, dst = st["op"], st["dst"]
        args = [self.arg(a) for a in st.get("a", [])]
        kw = {k: self.arg(v) for k, v in st.get("k", {}).items()}
        given = [(a, list(a)) for a in args + list(kw.values()) if isinstance(a, list)] if op in ("new", "call") else []
        r = self.do(op, st, args, kw)
        for a, before in given:
            if len(a) != len(before) or any(x is not y for x, y in zip(a, before)):
                raise CallerListChanged("the call changes the list that it is given, from %d elements to %d" % (len(before), len(a)))
        self.env[dst] = r
        if op in ("new", "call"):
            if self.twice and op == "call" and st["f"] == "adjust_roads_and_lanes":
                self.env[st["o"]].adjust_roads_and_lanes()
            if self.look:
                self.look_at([r] + [self.env.get(st.get("o"))] + args)
        return r

    def look_at(self, objects):
        for o in objects:
            if getattr(type(o), "__module__", "").split(".")[0] != PKG:
                continue
            for f in LOOKS:
                try:
                    getattr(o, f)()
                except Exception:  # not every object has it, or has it yet
                    pass

    def do(self, op, st, args, kw):
        if op == "new":  # construct / call a module level function
            r = resolve(self.pkg, st["f"])(*args, **kw)
        elif op == "call":
            r = resolve(self.env[st["o"]], st["f"])(*args, **kw)
        elif op == "get":
            r = resolve(self.env[st["o"]], st["f"])
        elif op == "item":
            r = self.env[st["o"]][st["i"]]
        elif op == "same":
            r = args[0] is args[1]
        elif op == "list":
            r = args
        elif op == "xml":
            r = ET.tostring(self.env[st["o"]].get_element(), encoding="unicode")
        elif op == "readfile":
            with open(args[0], "rb") as fh:
                r = fh.read().decode("latin-1")
        elif op == "writefile":
            with open(args[0], "wb") as fh:
                fh.write(args[1].encode("latin-1"))
            r = None
        elif op == "mkdir":
            os.makedirs(args[0], exist_ok=True)
            r = None
        elif op == "files":
            r = sorted(os.path.relpath(os.path.join(d, f), self.scratch)
                       for d, _, fs in os.walk(self.scratch) for f in fs)
        elif op == "enum":
            e = resolve(self.pkg, st["f"])
            r = [m.name for m in e]
        elif op == "stdout":  # what a call printed
            r = self.captured(st, args, kw)
        elif op == "executable":
            os.chmod(args[0], 0o755)
            r = None
        elif op == "allow_system":  # for a stand-in that lies in the scratch directory
            os.system = REAL_SYSTEM
            r = None
        elif op == "as_windows":  # what the library does when it is told that this is Windows; it may fail here
            old = os.name
            try:
                os.name = "nt"
                r = resolve(self.pkg, st["f"])(*args, **kw)
            except Exception:
                r = None
            finally:
                os.name = old
        elif op == "system":
            r = list(self.system_calls)
        else:
            raise KeyError("bad op " + op)
        return r

    def captured(self, st, args, kw):
        import io
        old, sys.stdout = sys.stdout, io.StringIO()
        try:
            resolve(self.pkg, st["f"])(*args, **kw)
            return sys.stdout.getvalue()
        finally:
            sys.stdout = old

    def run(self, steps):
        out = {}
        for n, st in enumerate(steps):
            try:
                r = self.step(st)
            except CaseTimeout:
                raise
            except BaseException as e:  # noqa: what the library raised is an observation
                info = {"exc": [c.__name__ for c in type(e).__mro__], "msg": str(e)[:300]}
                if st.get("may"):
                    out[st["dst"]] = info
                    continue
                info["step"] = n
                info["what"] = st
                return {"abort": info, "out": out}
            if st.get("obs"):
                out[st["dst"]] = {"v": plain(r)}
            elif st.get("may"):
                out[st["dst"]] = {"v": None}
        return {"out": out}


def main():
    proto = os.fdopen(os.dup(1), "w", encoding="ascii")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2) if not os.environ.get("VERIF_DEBUG") else None
    sys.stdout = os.fdopen(os.dup(devnull), "w", encoding="utf-8", errors="replace")
    sys.meta_path.insert(0, CachedSource())
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(os.path.dirname(__file__))]

    def on_alarm(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGPROF, on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    root = tempfile.mkdtemp(prefix="pyodrx-case-")
    try:
        try:
            fresh()
            proto.write(json.dumps({"ready": sys.version.split()[0]}) + "\n")
        except Exception as e:
            proto.write(json.dumps({"importerror": "%s: %s" % (type(e).__name__, e)}) + "\n")
            proto.flush()
            return
        proto.flush()
        n = 0
        for line in iter(sys.stdin.readline, ""):
            req = json.loads(line)
            n += 1
            scratch = os.path.join(root, "c%d" % n)
            os.mkdir(scratch)
            os.chdir(scratch)
            try:
                case = Case(None, scratch, req.get("numbers"), req.get("look"), req.get("twice"))
                # nothing the library starts may really run: the call is recorded instead
                os.system = lambda cmd: case.system_calls.append(cmd) or 0
                signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
                try:
                    case.pkg = fresh()
                    ans = case.run(req["steps"])
                except CaseTimeout:
                    ans = {"timeout": CPU_LIMIT, "out": {}}
                finally:
                    signal.setitimer(signal.ITIMER_PROF, 0)
            finally:
                os.system = REAL_SYSTEM
                os.chdir(root)
                shutil.rmtree(scratch, ignore_errors=True)
            proto.write(json.dumps(ans) + "\n")
            proto.flush()
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
