#!/usr/bin/env python3
"""Generate /verif/seeded/<id>/ from tools/plants/*.py (one BUGS list per file).

Each bug: id, property, file, edits=[(old,new),...], needs, breaks, cc (demo source),
optional: san ("address", "undefined", "thread"), conf ("A" = fast_float/ryu, "B" = std),
          sh (demo.sh body replacing the default one).
Usage: plant.py [id...]      (needs a clean /repo; works in a scratch worktree)
"""
import importlib.util, json, os, subprocess, sys, tempfile, pathlib, shutil
V = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path(os.environ.get("HZ_REPO", "/repo"))

SH = r'''#!/bin/bash
# cwd: the repository. Builds the library's sources together with demo.cc and runs it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
SAN="@SAN@"
mkdir -p $T/inc/geoarrow
DEF_NS=""
sed -e "s/@GEOARROW_VERSION_MAJOR@/0/g; s/@GEOARROW_VERSION_MINOR@/2/g; s/@GEOARROW_VERSION_PATCH@/0/g; s/@GEOARROW_VERSION@/0.2.0/g; s/@GEOARROW_USE_FAST_FLOAT_DEFINE@/#define GEOARROW_USE_FAST_FLOAT @FF@/; s/@GEOARROW_USE_RYU_DEFINE@/#define GEOARROW_USE_RYU @FF@/; s/@GEOARROW_NAMESPACE_DEFINE@/$DEF_NS/" \
  src/geoarrow/geoarrow_config.h.in > $T/inc/geoarrow/geoarrow_config.h
CF="@OPT@ -g -w -I$T/inc -Isrc -Isrc/vendor $SAN"
OBJS=""
for f in src/geoarrow/*.c src/vendor/nanoarrow/nanoarrow.c @RYU@; do
  o=$T/$(basename $f).o
  gcc $CF -std=gnu99 -c $f -o $o &
  OBJS="$OBJS $o"
done
@FFCC@
g++ $CF -std=c++17 -I"$D" -c "$D/demo.cc" -o $T/demo.o &
wait
g++ $SAN $OBJS $T/demo.o -o $T/demo -lpthread
export ASAN_OPTIONS=detect_leaks=@LEAK@
timeout 120 $T/demo
'''

def sh(*a, **k):
    return subprocess.run(a, check=True, text=True, capture_output=True, **k).stdout

def load():
    bugs = []
    for f in sorted((V / "tools/plants").glob("*.py")):
        spec = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        bugs += m.BUGS
    ids = [b["id"] for b in bugs]
    assert len(ids) == len(set(ids)), "duplicate ids"
    return bugs

def gen(b):
    d = V / "seeded" / b["id"]
    d.mkdir(parents=True, exist_ok=True)
    edits = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
    saved = {}
    wt = tempfile.mkdtemp(prefix="plant")
    out = ""
    for f, es in edits.items():
        src = (REPO / f).read_text()
        new = src
        for e in es:
            old, rep = e[0], e[1]
            cnt = new.count(old)
            want = e[2] if len(e) > 2 else None   # which occurrence (0-based)
            if want is None:
                assert cnt == 1, f"{b['id']}: {cnt} matches in {f} for {old!r}"
                new = new.replace(old, rep)
            else:
                assert cnt > want, f"{b['id']}: {cnt} matches for {old!r}"
                p = -1
                for _ in range(want + 1):
                    p = new.index(old, p + 1)
                new = new[:p] + rep + new[p + len(old):]
        assert new != src
        for side, txt in (("a", src), ("b", new)):
            p = pathlib.Path(wt) / side / f
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(txt)
        r = subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=wt, text=True,
                           capture_output=True)
        out += "\n".join([l.split("\t")[0] if l.startswith(("---", "+++")) else l
                           for l in r.stdout.split("\n")])
    shutil.rmtree(wt)
    (d / "patch.diff").write_text(out)
    conf = b.get("conf", "B")
    san = {"": "", "address": "-fsanitize=address,undefined -fno-sanitize=pointer-overflow,nonnull-attribute -fno-sanitize-recover=undefined",
           "thread": "-fsanitize=thread"}[b.get("san", "")]
    if "sh" in b:
        s = b["sh"]
    else:
        s = SH.replace("@SAN@", san).replace("@OPT@", "-O0" if b.get("san") == "address" else "-O1").replace("@FF@", "1" if conf == "A" else "0")
        s = s.replace("@LEAK@", "1" if b.get("leak") else "0")
        s = s.replace("@RYU@", "src/geoarrow/ryu/d2s.c" if conf == "A" else "")
        s = s.replace("@FFCC@", 'g++ $CF -std=c++17 -c src/geoarrow/double_parse_fast_float.cc -o $T/ff.o & OBJS="$OBJS $T/ff.o"'
                      if conf == "A" else ":")
    (d / "demo.sh").write_text(s)
    os.chmod(d / "demo.sh", 0o755)
    if "cc" in b:
        (d / "demo.cc").write_text('#include "d.h"\n' + b["cc"])
        shutil.copy(V / "tools/plants/d.h", d / "d.h")
    for n, t in b.get("extra", {}).items():
        (d / n).write_text(t)
    (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"],
                                             "what_it_breaks": b["breaks"]}, indent=1) + "\n")

if __name__ == "__main__":
    want = set(sys.argv[1:])
    for b in load():
        if not want or b["id"] in want:
            gen(b)
            print(b["id"])
