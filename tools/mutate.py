#!/usr/bin/env python3
"""Mutation campaign (development aid, no check): small random edits of the library, each run
against the checks on one core until one of them alarms. Survivors are written to OUT for
inspection: either an equivalent change or a gap.

  mutate.py OUT --files a.c b.c --n 40 --jobs 7 --seed 1 [--scale 0.5]
"""
import argparse, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run as R
from checks import CHECKS

FIRST = {
    "wkb_reader.c": "P07 P01 P14 P13 P06 P05", "wkb_writer.c": "P10 P16 P04 P18 P06 P05", "wkt_reader.c": "P08 P02 P14 P13 P06",
    "wkt_writer.c": "P11 P19 P16 P04 P06 P05", "native_writer.c": "P12 P16 P04 P15 P18 P06 P05", "geometry.c": "P18 P17 P10 P04 P05 P14",
    "kernel.c": "P20 P21 P19 P05 P06", "metadata.c": "P24 P03 P05", "schema.c": "P23 P24 P05 P06", "schema_view.c": "P23 P03 P24",
    "builder.c": "P25 P28 P05 P06", "array_reader.c": "P13 P16 P06", "array_view.c": "P13 P14 P26", "array_writer.c": "P12 P10 P16 P06",
    "double_print.c": "P09 P11", "double_parse_std.c": "P09 P08", "double_parse_fast_float.cc": "P09 P08", "scalar_udf.c": "P22 P06",
    "util.c": "P23", "visitor.c": "P06", "geoarrow_type_inline.h": "P23 P12 P25", "array_util.hpp": "P26", "wkb_util.hpp": "P27",
    "geometry_data_type.hpp": "P28", "array_reader.hpp": "P28", "array_writer.hpp": "P28", "geometry_type_traits.hpp": "P26", "internal.hpp": "P28",
    "exception.hpp": "P28", "d2s.c": "P09 P11 P32",
}
ONLY = {"array_util.hpp": "P26 P27", "wkb_util.hpp": "P27", "geometry_data_type.hpp": "P28", "array_reader.hpp": "P28", "array_writer.hpp": "P28",
        "geometry_type_traits.hpp": "P26", "internal.hpp": "P28", "exception.hpp": "P28"}


def mutants(text, rng):
    """(line number, new text) candidates"""
    out = []
    lines = text.split("\n")
    depth_comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "static const", "typedef", "using", "namespace")):
            continue
        def put(new, what):
            if new != l:
                out.append((i, "\n".join(lines[:i] + [new] + lines[i + 1:]), what))
        for a, bs in ((" < ", [" <= "]), (" <= ", [" < "]), (" > ", [" >= "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]),
                      (" && ", [" || "]), (" || ", [" && "]), (" + ", [" - "]), (" - ", [" + "]), (" * ", [" + "]), (" += ", [" = ", " -= "]),
                      (" + 1", [""]), (" - 1", [""]), ("++", ["--"]), (" | ", [" & "]), ("true", ["false"]), ("false", ["true"])):
            for m in re.finditer(re.escape(a), l):
                for b in bs:
                    put(l[:m.start()] + b + l[m.end():], "%s->%s" % (a, b))
        for m in re.finditer(r"(?<![\w.\"%])(\d+)(?![\w.\"])", l):
            n = int(m.group(1))
            for k in {n + 1, max(0, n - 1), 0} - {n}:
                if rng.random() < .6:
                    put(l[:m.start()] + str(k) + l[m.end():], "%d->%d" % (n, k))
        if s.endswith(";") and not re.match(r"(return|struct|const|int|enum|static|uint|double|char|auto|case|break|default|std::|typename|void|size_t|bool|u?int\d+_t|goto)\b.*", s) \
                and s.count("(") == s.count(")") and not s.startswith(("}", ")")):
            # a whole statement only if the previous line ended one
            p = next((lines[k].strip() for k in range(i - 1, -1, -1) if lines[k].strip()), "")
            if p.endswith((";", "{", "}", ":", "*/")) or p.startswith("//"):
                put(re.match(r"\s*", l).group(0) + ";", "delete")
        if s.startswith("break;"):
            put(l.replace("break;", ";"), "nobreak")
        if re.match(r"(if|while) \(.*\) \{$", s):
            c = s[s.index("(") + 1:s.rindex(")")]
            put(l.replace("(" + c + ")", "(!(" + c + "))"), "negate")
            put(l.replace("(" + c + ")", "(0)"), "never")
        m = re.match(r"(\s*)return (EINVAL|ENOMEM|EAGAIN|ENOTSUP|EIO|result);", l)
        if m:
            put(m.group(1) + "return GEOARROW_OK;", "ok")
        for a, b in (("[level]", "[level - 1]"), ("[i]", "[0]"), ("[j]", "[0]"), ("offset[0]", "offset[1]"), ("offset[1]", "offset[0]"), ("offset[2]", "offset[1]"),
                     ("int64_t", "int32_t"), ("uint32_t", "uint16_t"), ("size_bytes", "capacity_bytes"), ("n_values", "n_values - 1")):
            for mm in re.finditer(re.escape(a), l):
                if rng.random() < .5:
                    put(l[:mm.start()] + b + l[mm.end():], "%s->%s" % (a, b))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--files", nargs="+"); ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--jobs", type=int, default=7); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--scale", type=float, default=0.5)
    ap.add_argument("--checks", default="")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    skip = {"P22", "P29", "P30"}
    allruns = [(p, r) for p in CHECKS if p not in skip for r in CHECKS[p]["runs"] if r["config"] not in "VW"]
    bins = R.build([r for _, r in allruns])
    todo = []
    for f in a.files:
        p = os.path.join(R.REPO, "src/geoarrow", f)
        t = open(p).read()
        ms = mutants(t, rng)
        rng.shuffle(ms)
        # spread over lines
        seen, pick = {}, []
        for m in sorted(ms, key=lambda m: 0):
            k = seen.get(m[0], 0)
            pick.append((k, m)); seen[m[0]] = k + 1
        pick.sort(key=lambda x: x[0])
        todo += [(f, p) + m for _, m in pick[:a.n]]
    rng.shuffle(todo)
    lock = threading.Lock()
    stat = {}
    of = open(a.out, "a")

    def one(m):
        f, path, line, new, what = m
        d = tempfile.mkdtemp(prefix="mut", dir="/tmp/mut")
        try:
            src = os.path.join(d, "src/geoarrow", f)
            hpp = f.endswith((".hpp", ".h"))
            if hpp:
                sub = os.path.relpath(path, os.path.join(R.REPO, "src"))
                src = os.path.join(d, "src", sub)
            os.makedirs(os.path.dirname(src), exist_ok=True)
            open(src, "w").write(new)
            order = ONLY.get(os.path.basename(f), FIRST.get(os.path.basename(f), "") + " " + " ".join(p for p in CHECKS)).split()
            if a.checks: order = a.checks.split()
            objs = {}
            done = set()
            old = open(path).read().split("\n")[line].strip()
            nw = new.split("\n")[line].strip()
            for p in order:
                if p in done or p in skip:
                    continue
                done.add(p)
                for r in CHECKS[p]["runs"]:
                    if r["config"] in "VW": continue
                    c = r["config"]; b = bins[(r["src"], c)]
                    cfg = R.CONFIGS[c]; san = R.SAN[cfg["san"]]
                    base = ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-w", "-I" + os.path.join(d, "src"), "-I" + os.path.join(R.BUILD, "inc-" + c),
                            "-I" + os.path.join(R.REPO, "src"), "-I" + os.path.join(R.REPO, "src/vendor"), "-I" + R.HAR] + san
                    if c == "B": base.append("-DHZ_CONFIG_B")
                    od = os.path.dirname(b)
                    libo = {os.path.basename(s): os.path.join(od, os.path.basename(s) + ".o") for s in R.sources(cfg)}
                    hobj = b[:-4] + ".o"; rto = re.sub(r"/[^/]*-([0-9a-f]+)\.bin$", r"/rt.cc-\1.o", b)
                    def comp(s, o):
                        cc = ["clang++", "-std=c++17"] if s.endswith(".cc") else ["clang", "-std=gnu99"]
                        q = subprocess.run(cc + base + ["-c", s, "-o", o], capture_output=True, text=True)
                        return q.returncode == 0
                    if f.endswith(".h") and not all(comp(s2, os.path.join(d, c + k + ".o")) for k, s2 in ((os.path.basename(s1), s1) for s1 in R.sources(cfg)) if "/vendor/" not in s2):
                        return m, "nocompile", None
                    if f.endswith(".h"):
                        for s1 in R.sources(cfg):
                            if "/vendor/" not in s1: libo[os.path.basename(s1)] = os.path.join(d, c + os.path.basename(s1) + ".o")
                    if hpp:
                        hobj = os.path.join(d, r["src"] + c + ".o")
                        if not comp(os.path.join(R.HAR, r["src"]), hobj):
                            return m, "nocompile", None
                    else:
                        bn = os.path.basename(f)
                        if bn not in libo:
                            continue
                        o = os.path.join(d, c + ".o")
                        if c not in objs:
                            objs[c] = comp(src, o)
                        if not objs[c]:
                            return m, "nocompile", None
                        libo[bn] = o
                    nb = os.path.join(d, p + c + ".bin")
                    q = subprocess.run(["clang++"] + san + R.WRAP + list(libo.values()) + [hobj, rto, "-lpthread", "-lm", "-o", nb], capture_output=True, text=True)
                    if q.returncode:
                        return m, "nolink", q.stderr[-300:]
                    out = os.path.join(d, "o.json")
                    cases = max(1, int(r["quick"] * a.scale))
                    cmd = [nb, "--seed", "1", "--shard", "0", "--nshards", "8", "--cases", str(cases), "--from", "0", "--out", out, "--crumb", out + ".crumb",
                           "--cpu", "20", "--known", ",".join(R.known(p))]
                    if os.path.exists(out): os.remove(out)
                    try:
                        q = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=R.env(), stdin=subprocess.DEVNULL, timeout=300)
                    except subprocess.TimeoutExpired:
                        return m, "killed", p + " timeout"
                    os.remove(nb)
                    if q.returncode != 0:
                        return m, "killed", p + " crash"
                    j = json.load(open(out))
                    fails = [x for x in j["fails"] if x["key"] not in R.known(p)]
                    if fails:
                        return m, "killed", p + " " + fails[0]["key"]
            return m, "SURVIVED", None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for m, st, why in ex.map(one, todo):
            f, path, line, new, what = m
            stat.setdefault(f, {}).setdefault(st, 0)
            stat[f][st] += 1
            old = open(path).read().split("\n")[line].strip()
            of.write("%s %s:%d [%s] %s\n    - %s\n    + %s\n" % (st, f, line + 1, what, why or "", old, new.split("\n")[line].strip()))
            of.flush()
    of.write("SUMMARY %s\n" % json.dumps(stat))
    of.close()
    print(json.dumps(stat))


if __name__ == "__main__":
    main()
