"""check <property> [--tier quick|thorough] [--replay FILE]

Splits the search over processes, merges what they found, writes the evidence file and the replay file.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: the check itself failed.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import client  # noqa: E402

SOFT_DEADLINE = {"quick": 420, "thorough": 3600 * 3}


def load(pid):
    mod = importlib.import_module("props." + pid.lower())
    return mod.PROP


def spec_key(spec):
    return hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]


def check(prop, spec, sut):
    sut.numbers = spec.get("_numbers") if isinstance(spec, dict) else None
    sut.positional = isinstance(spec, dict) and bool(spec.get("_positional"))
    sut.late = isinstance(spec, dict) and bool(spec.get("_late"))
    sut.look = isinstance(spec, dict) and bool(spec.get("_look"))
    sut.twice = isinstance(spec, dict) and bool(spec.get("_twice"))
    try:
        return prop.check(spec, sut)
    except (client.Violation, client.HarnessError):
        raise
    except Exception as e:  # the oracle understands every valid outcome
        at = traceback.extract_tb(e.__traceback__)[-1]
        raise client.Violation("what came out is not understood: %s: %s (at %s:%d)" % (
            type(e).__name__, e, os.path.basename(at.filename), at.lineno)) from e


def with_numbers(strategy):
    """Some cases give their numbers as numpy's, as they come out of computations; some give their optional
    arguments by position; some add the roads before they fill them; some look at everything in between; some adjust twice."""
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        spec = draw(strategy)
        if isinstance(spec, dict) and draw(st.integers(0, 9)) == 9:
            spec = dict(spec, _numbers="numpy")
        if isinstance(spec, dict) and draw(st.integers(0, 9)) == 9:
            spec = dict(spec, _positional=True)
        if isinstance(spec, dict) and draw(st.integers(0, 9)) == 9:
            spec = dict(spec, _late=True)
        if isinstance(spec, dict) and draw(st.integers(0, 9)) == 9:
            spec = dict(spec, _look=True)
        if isinstance(spec, dict) and draw(st.integers(0, 9)) == 9:
            spec = dict(spec, _twice=True)
        return spec
    return case()


def run_once(prop, spec):
    """The outcome of one case in a new worker: (message or None)."""
    sut = client.Sut()
    try:
        check(prop, spec, sut)
        return None
    except client.Violation as e:
        return str(e) or "violated"
    finally:
        sut.stop()


def shard_main(args):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 60

    prop = load(args.property)
    idx, total = args.shard
    sut = client.Sut()
    stats = {"evaluations": 0, "nontrivial": {}, "labels": collections.Counter(), "samples": [], "late": 0,
             "filtered": 0, "violation": None, "error": None, "interpreter": None}
    t0 = time.time()
    deadline = SOFT_DEADLINE[args.tier]
    state = {"last": None, "first": None}

    class Failed(Exception):
        pass

    class Stop(BaseException):
        pass

    def execute(spec):
        stats["evaluations"] += 1
        try:
            info = check(prop, spec, sut)
        except client.Hang as e:
            state["last"] = state["first"] = (spec, str(e))
            raise Stop()
        except client.Violation as e:
            state["last"] = (spec, str(e))
            if state["first"] is None:
                state["first"] = state["last"]
                state["t_first"] = time.time()
            return False
        extra = [t for t, k in (("numpy numbers", "_numbers"), ("by position", "_positional"), ("filled late", "_late"), ("looked at", "_look"), ("adjusted twice", "_twice")) if isinstance(spec, dict) and k in spec]
        for lab in info.labels + extra:
            stats["labels"][lab] += 1
        if info.nontrivial:
            k = spec_key(spec)
            if k not in stats["nontrivial"]:
                stats["nontrivial"][k] = 1
                n = len(stats["nontrivial"])
                if n in (2, 40, 150, 400):
                    stats["samples"].append(spec)
        return True

    def search():
        if idx == 0:
            for name, spec in pinned(args.property):
                if not execute(spec):
                    return
        seed = args.seed * 1000003 + idx
        n = prop.examples(args.tier)
        n = n // total + (1 if idx < n % total else 0)
        if n == 0:
            return

        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                  report_multiple_bugs=False, verbosity=Verbosity.quiet, phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck))
        @given(with_numbers(prop.strategy()))
        def test(spec):
            if time.time() - t0 > deadline and state["first"] is None:
                stats["late"] += 1
                return
            if not execute(spec):
                raise Failed()

        try:
            test()
        except Failed:
            pass
        except hypothesis.errors.Flaky:
            stats["flaky"] = True
        except BaseExceptionGroup as e:  # noqa: F821
            if e.split((Failed, hypothesis.errors.Flaky))[1] is not None:
                raise

    try:
        search()
    except Stop:
        pass
    except Exception:
        stats["error"] = traceback.format_exc()
    stats["interpreter"] = sut.version
    stats["programs"] = sut.programs
    sut.stop()
    if state["last"] is not None and stats["error"] is None:
        # confirm in new workers: the shrunk case, or failing that the first one found
        for spec, msg in (state["last"], state["first"]):
            tries = 1 if spec is state["last"][0] else 4
            hit = None
            for _ in range(tries):
                try:
                    hit = run_once(prop, spec)
                except Exception:
                    stats["error"] = traceback.format_exc()
                if hit:
                    break
            if hit:
                stats["violation"] = {"spec": spec, "message": hit}
                stats["error"] = None
                break
        else:
            stats["error"] = stats["error"] or ("a violation did not reproduce: %s on %s" %
                                                (state["first"][1], json.dumps(state["first"][0])))
    stats["wall"] = time.time() - t0
    with open(args.out, "w") as fh:
        json.dump(stats, fh)


def pinned(pid):
    """Shrunk inputs of defects repaired earlier: replayed on every run."""
    d = os.path.join(ROOT, "regress", pid)
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                with open(os.path.join(d, f)) as fh:
                    yield f, json.load(fh)["spec"]


def known_findings(pid):
    with open(os.path.join(ROOT, "known_findings.json")) as fh:
        return [k for k in json.load(fh)["known"] if k["property"] == pid]


def save_replay(pid, spec, message, seed):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, "%s-%s.json" % (pid, spec_key(spec)))
    with open(fn, "w") as fh:
        json.dump({"property": pid, "message": message, "seed": seed, "spec": spec,
                   "replay": "./check %s --replay %s" % (pid, fn)}, fh, indent=1)
        fh.write("\n")
    return fn


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--examples", type=int, help="override the number of cases")
    ap.add_argument("--shard", type=lambda s: tuple(int(x) for x in s.split("/")))
    ap.add_argument("--shards", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--out")
    args = ap.parse_args()
    pid = args.property
    if args.examples:
        os.environ["VERIF_EXAMPLES"] = str(args.examples)
    if args.shard:
        return shard_main(args)
    prop = load(pid)
    if args.replay:
        with open(args.replay) as fh:
            spec = json.load(fh)["spec"]
        msg = run_once(prop, spec)
        if msg:
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(args.replay)))
            print("  " + msg)
            return 1
        print("holds on this case")
        return 0

    t0 = time.time()
    outdir = os.path.join(ROOT, "out")
    os.makedirs(outdir, exist_ok=True)
    procs = []
    for i in range(args.shards):
        out = os.path.join(outdir, "%s-%d-%d.json" % (pid, os.getpid(), i))
        cmd = [sys.executable, os.path.abspath(__file__), pid, "--tier", args.tier, "--seed", str(args.seed),
               "--shard", "%d/%d" % (i, args.shards), "--out", out]
        env = dict(os.environ, PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        procs.append((subprocess.Popen(cmd, env=env, cwd=ROOT), out))
    results, errors = [], []
    for i, (p, out) in enumerate(procs):
        code = p.wait()
        try:
            with open(out) as fh:
                results.append(json.load(fh))
            os.unlink(out)
        except (OSError, ValueError):
            errors.append("shard %d ended with code %s and no result" % (i, code))
    for r in results:
        if r["error"]:
            errors.append(r["error"])

    # recorded defects that were not repaired
    for k in known_findings(pid):
        msg = run_once(prop, k["spec"])
        if msg:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("note: the recorded finding '%s' no longer fails" % k["what"])

    labels = collections.Counter()
    nontrivial = set()
    for r in results:
        labels.update(r["labels"])
        nontrivial.update(r["nontrivial"])
    evaluations = sum(r["evaluations"] for r in results)
    violations = [r["violation"] for r in results if r["violation"]]
    samples = [s for r in results for s in r["samples"]]
    late = sum(r["late"] for r in results)
    evidence = {
        "property": pid, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.rule,
            "samples": sorted(samples, key=lambda s: len(json.dumps(s)))[:6],
            "classes": dict(sorted(labels.items())),
            "api_programs_run": sum(r.get("programs") or 0 for r in results),
            "interpreter": sorted({str(r["interpreter"]) for r in results}),
            "cases_not_run_for_lack_of_time": late,
            "pinned_regressions": len(list(pinned(pid))),
            "known_findings": [k["what"] for k in known_findings(pid)],
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")

    if violations:
        v = min(violations, key=lambda v: len(json.dumps(v["spec"])))
        fn = save_replay(pid, v["spec"], v["message"], args.seed)
        print("VIOLATION property=%s replay=%s" % (pid, fn))
        print("  " + v["message"])
        return 1
    if errors:
        print("the check failed:\n" + "\n".join(errors[:3]), file=sys.stderr)
        return 2
    missing = [c for c in prop.must_cover if labels[c] == 0]
    if missing and not os.environ.get("VERIF_EXAMPLES"):
        print("the check failed: no case of %s was generated" % missing, file=sys.stderr)
        return 2
    print("%s held on %d cases (%d distinct non-trivial), %.1f s" % (pid, evaluations, len(nontrivial), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
