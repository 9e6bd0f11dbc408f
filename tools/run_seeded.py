"""Development aid: runs the check of each seeded change against a scratch copy of /repo that has it.

tools/run_seeded.py [id ...]   prints one line per change, and writes tools/seeded_results.json
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
RESULTS = os.path.join(ROOT, "tools", "seeded_results.json")


def main():
    ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
    results = {}
    if os.path.exists(RESULTS):
        with open(RESULTS) as fh:
            results = json.load(fh)
    wt = "/tmp/verif-seeded-copy"
    for i in ids:
        d = os.path.join(SEEDED, i)
        with open(os.path.join(d, "meta.json")) as fh:
            meta = json.load(fh)
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree("/repo", wt, symlinks=True)
        ap = subprocess.run(["git", "-C", wt, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if ap.returncode:
            print(i, meta["property"], "DOES NOT APPLY", ap.stderr[:200])
            continue
        demo = [subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=at, capture_output=True).returncode for at in ("/repo", wt)]
        if demo[0] or not demo[1]:
            print(i, meta["property"], "THE DEMONSTRATION ENDS WITH", demo)
            continue
        p = subprocess.run([os.path.join(ROOT, "check"), meta["property"]], env=dict(os.environ, VERIF_REPO=wt),
                           capture_output=True, text=True)
        caught = p.returncode == 1 and "VIOLATION property=" + meta["property"] in p.stdout
        results[i] = {"property": meta["property"], "caught": caught}
        print(i, meta["property"], "caught" if caught else "MISSED", flush=True)
        with open(RESULTS, "w") as fh:
            json.dump(dict(sorted(results.items())), fh, indent=1)
            fh.write("\n")
    shutil.rmtree(wt, ignore_errors=True)
    have = set(os.listdir(SEEDED))
    results = {k: v for k, v in sorted(results.items()) if k in have}
    with open(RESULTS, "w") as fh:
        json.dump(results, fh, indent=1)
        fh.write("\n")


main()
