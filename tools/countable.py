#!/usr/bin/env python3
"""Planted bugs whose patch touches only lines that commits in /repo added."""
import glob, os, re, subprocess
def git(*a): return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True, check=True).stdout
base = git("rev-list", "--max-parents=0", "HEAD").split()[-1]
def added(path):
    s = set()
    for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? ", git("diff", "-U0", "--no-renames", base, "HEAD", "--", path)):
        s |= set(range(int(m[1]), int(m[1]) + int(m[2] or 1)))
    return s
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    subprocess.run(["git", "-C", "/repo", "apply", d], check=True)
    ok = False
    try:
        for path in git("diff", "--name-only").split():
            mine = added(path); total = len(git("show", "HEAD:" + path).splitlines())
            for m in re.finditer(r"(?m)^@@ -(\d+)(?:,(\d+))? ", git("diff", "-U0", "--no-renames", "--", path)):
                at, n = int(m[1]), int(m[2]) if m[2] is not None else 1
                old = [x not in mine for x in (range(at, at + n) if n else (at, at + 1)) if 1 <= x <= total]
                ok |= bool(old) and (any(old) if n else all(old))
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    if not ok: print(os.path.basename(os.path.dirname(d)))
