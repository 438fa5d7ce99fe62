#!/usr/bin/env python3
"""Which lines and branches of /repo/src/geoarrow the harnesses reach (not a check: a look at the blind spots).
Usage: coverage.py OUTDIR [--cases N] [--jobs J]"""
import argparse, concurrent.futures as cf, glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("--cases", type=int, default=3000); ap.add_argument("--jobs", type=int, default=4)
a = ap.parse_args()
out = os.path.abspath(a.out)
os.makedirs(out, exist_ok=True)
os.environ["HZ_BUILD"] = os.path.join(out, "build")
import run
from checks import CHECKS
run.SAN["asan"] = ["-fprofile-instr-generate", "-fcoverage-mapping"]
todo = []
for p, c in CHECKS.items():
    for r in c["runs"]:
        if r["src"].endswith(".cc") and r["config"] in "AB":
            todo.append(r)
bins = run.build(todo)
def one(i):
    r = todo[i]
    b = bins[(r["src"], r["config"])]
    e = dict(os.environ, LLVM_PROFILE_FILE=os.path.join(out, "p%d.profraw" % i), ARROW_DEFAULT_MEMORY_POOL="system", LC_ALL="C")
    n = min(a.cases, r["quick"])
    q = subprocess.run([b, "--seed", "1", "--cases", str(n), "--out", "/dev/null"], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    return r["src"], r["config"], q.returncode, q.stderr[-200:]
with cf.ThreadPoolExecutor(a.jobs) as ex:
    for r in ex.map(one, range(len(todo))):
        print(*r, flush=True)
subprocess.run(["llvm-profdata", "merge", "-sparse", "-o", out + "/all.profdata"] + glob.glob(out + "/*.profraw"), check=True)
for cfg in "AB":
    bs = [b for (s, c), b in bins.items() if c == cfg]
    args = [bs[0]] + sum([["-object", b] for b in bs[1:]], [])
    src = [os.path.join(run.REPO, "src/geoarrow")]
    for cmd, f in ((["llvm-cov", "report"], "report"), (["llvm-cov", "show", "--show-branches=count", "--show-line-counts"], "show")):
        with open("%s/%s-%s.txt" % (out, f, cfg), "w") as fh:
            subprocess.run(cmd + args + ["-instr-profile", out + "/all.profdata"] + (["-show-functions"] if 0 else []) + src, stdout=fh, stderr=subprocess.STDOUT)
