"""Programs of API calls, and the process that runs them on the project's interpreter."""
import json
import os
import subprocess

from signatures import by_position, filled_late

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("VERIF_SUT_PYTHON", "/opt/venv/bin/python")


class Violation(Exception):
    """The property does not hold on this case."""


class Hang(Violation):
    """The case used up a CPU budget thousands of times its normal cost."""


class HarnessError(Exception):
    pass


class Ref:
    __slots__ = ("prog", "name")

    def __init__(self, prog, name):
        self.prog, self.name = prog, name

    def call(self, f, *a, **k):
        return self.prog._add("call", f, a, k, o=self.name)

    def try_call(self, f, *a, **k):
        return self.prog._add("call", f, a, k, o=self.name, may=True)

    def ask(self, f, *a, **k):
        """call and observe the result"""
        return self.prog._add("call", f, a, k, o=self.name, obs=True)

    def try_ask(self, f, *a, **k):
        return self.prog._add("call", f, a, k, o=self.name, obs=True, may=True)

    def get(self, f, obs=True):
        return self.prog._add("get", f, (), {}, o=self.name, obs=obs)

    def part(self, f):
        return self.prog._add("get", f, (), {}, o=self.name)

    def item(self, i):
        return self.prog._add("item", None, (), {}, o=self.name, i=i)

    def xml(self):
        return self.prog._add("xml", None, (), {}, o=self.name, obs=True)


def E(path):
    """An enumeration member, such as E("RoadMarkType.solid")"""
    return {"enum": path}


def Path(p):
    return {"path": p}


class Prog:
    def __init__(self):
        self.steps = []
        self.n = 0

    def enc(self, a):
        if isinstance(a, Ref):
            return {"$": a.name}
        if isinstance(a, (list, tuple)):
            return [self.enc(x) for x in a]
        return a

    def _add(self, op, f, a, k, **kw):
        self.n += 1
        name = "v%d" % self.n
        st = {"op": op, "dst": name}
        if f is not None:
            st["f"] = f
        if a:
            st["a"] = [self.enc(x) for x in a]
        if k:
            st["k"] = {x: self.enc(y) for x, y in k.items()}
        st.update(kw)
        self.steps.append(st)
        return Ref(self, name)

    def new(self, f, *a, **k):
        return self._add("new", f, a, k)

    def ask(self, f, *a, **k):
        return self._add("new", f, a, k, obs=True)

    def try_new(self, f, *a, **k):
        return self._add("new", f, a, k, may=True)

    def try_ask(self, f, *a, **k):
        return self._add("new", f, a, k, obs=True, may=True)

    def op(self, op, *a, **kw):
        f = kw.pop("f", None)
        return self._add(op, f, a, {}, **kw)


class Result:
    def __init__(self, ans):
        self.ans = ans
        self.out = ans["out"]

    def __getitem__(self, ref):
        r = self.out[ref.name]
        if "exc" in r:
            raise Violation("unexpected %s: %s" % (r["exc"][0], r["msg"]))
        return r["v"]

    def exc(self, ref):
        """The names of the exception's classes, or None when the step returned."""
        e = self.out[ref.name].get("exc")
        if e and "Exception" not in e:
            raise Violation("%s was raised, which is not an Exception: %s" % (e[0], self.excmsg(ref)))
        return e

    def excmsg(self, ref):
        return self.out[ref.name].get("msg")


class Sut:
    """A worker process; restarted when it dies."""

    def __init__(self):
        self.proc = None
        self.version = None
        self.programs = 0
        self.numbers = None
        self.positional = self.late = self.look = self.twice = False

    def start(self):
        env = dict(os.environ)
        env.update(OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C",
                   PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONPATH="")
        self.proc = subprocess.Popen([PYTHON, os.path.join(HERE, "worker.py")], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, env=env, text=True, encoding="ascii", cwd="/")
        hello = json.loads(self.proc.stdout.readline() or "{}")
        if "importerror" in hello:
            raise HarnessError("pyodrx does not import: " + hello["importerror"])
        if "ready" not in hello:
            raise HarnessError("worker did not start")
        self.version = hello["ready"]

    def stop(self):
        if self.proc:
            try:
                self.proc.stdin.close()
                self.proc.wait(10)
            except Exception:
                self.proc.kill()
                self.proc.wait()
            self.proc = None

    def run(self, prog, allow_abort=False):
        if self.proc is None:
            self.start()
        self.programs += 1
        steps = [by_position(s) for s in prog.steps] if self.positional else prog.steps
        if self.late:
            steps = filled_late(steps)
        try:
            self.proc.stdin.write(json.dumps({"steps": steps, "numbers": self.numbers, "look": self.look, "twice": self.twice}) + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            code = self.proc.wait()
            self.proc = None
            raise Violation("the process that makes these calls died with code %s" % code)
        ans = json.loads(line)
        if "timeout" in ans:
            raise Hang("the calls did not finish within %g s of CPU time (normally a few ms)" % ans["timeout"])
        if "abort" in ans and not allow_abort:
            a = ans["abort"]
            w = a["what"]
            raise Violation("a valid call raised %s: %s (in %s %s)" % (a["exc"][0], a["msg"], w["op"], w.get("f", "")))
        return Result(ans)
