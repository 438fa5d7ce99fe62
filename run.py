#!/usr/bin/env python3
"""Runs one property check: builds the harness from /repo's working tree with
sanitizers, runs its cases in shards, watches for oracle violations, sanitizer
reports, crashes and hangs, and writes the evidence file.

  run.py P01 [--tier quick|thorough] [--seed N]
  run.py --replay evidence/replay/P01-0.json
Exit: 0 held, 1 violation (VIOLATION line), 2 the check itself could not run.
"""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HZ_REPO", "/repo")
HAR = os.path.join(VERIF, "harness")
BUILD = os.environ.get("HZ_BUILD", os.path.join(VERIF, "build"))
EVID = os.environ.get("HZ_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402
import nsbuild, pybuild  # noqa: E402

NPROC = max(1, min(8, os.cpu_count() or 1))
CC, CXX = "clang", "clang++"
# pointer-overflow/nonnull-attribute: NULL + 0 and memcpy(NULL, .., 0) are not
# what any property is about, and a harmless rewrite may introduce them.
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute,function,vptr",
             "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "none": [],  # for memcheck
}
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup"]
ASAN_OPTIONS = ("detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=33554432:malloc_fill_byte=203:"
                "exitcode=99:quarantine_size_mb=48:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:"
                "handle_abort=1:handle_sigill=1:color=never:strict_memcmp=0:allow_user_segv_handler=0")
TSAN_OPTIONS = "exitcode=99:halt_on_error=1:color=never:report_signal_unsafe=0:second_deadlock_stack=1"


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def sources(cfg):
    d = os.path.join(REPO, "src/geoarrow")
    out = []
    for f in sorted(os.listdir(d)):
        if not f.endswith(".c") or f.endswith("_test.c"):
            continue
        if f == "double_parse_std.c" and cfg["ff"]:
            continue
        out.append(os.path.join(d, f))
    if cfg["ff"]:
        out.append(os.path.join(d, "double_parse_fast_float.cc"))
    if cfg["ryu"]:
        out.append(os.path.join(d, "ryu/d2s.c"))
    out.append(os.path.join(REPO, "src/vendor/nanoarrow/nanoarrow.c"))
    return out


def tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        for root, dirs, files in sorted(os.walk(p)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".cc", ".h", ".hpp", ".in")):
                    fp = os.path.join(root, f)
                    h.update(fp.encode())
                    with open(fp, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


CONFIGS = {
    "A": dict(ff=True, ryu=True, san="asan"),
    "B": dict(ff=False, ryu=False, san="asan"),
    "T": dict(ff=True, ryu=True, san="tsan"),
    "U": dict(ff=False, ryu=False, san="tsan"),
    "V": dict(ff=True, ryu=True, san="none"),
    "W": dict(ff=False, ryu=False, san="none"),
    "N": dict(ff=True, ryu=True, san="asan", lib=["-finstrument-functions"]),  # beside namespaced copies
}
LOCALES = ("de_DE", "fr_FR", "ps_AF", "tr_TR", "ar_SA")


def extra_flags(src):
    """Compiler and linker flags of a harness beyond those of its configuration"""
    if src == "p32.cc":
        return ["-std=c++17", "-frounding-math"], []
    if src == "p33.cc":
        return ["-std=c++17"], ["-rdynamic", "-ldl"]
    if src != "p30.cc":
        return ["-std=c++17"], []
    # Apache Arrow C++: the headers and library inside pyarrow
    d = os.path.join(os.path.dirname(os.path.dirname(pybuild.VENV)), "lib")
    for py in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        pa = os.path.join(d, py, "site-packages/pyarrow")
        so = sorted(f for f in os.listdir(pa) if re.fullmatch(r"libarrow\.so\.\d+", f)) if os.path.isdir(pa) else []
        if so:
            return (["-std=c++20", "-isystem", os.path.join(pa, "include")], [os.path.join(pa, so[0]), "-Wl,-rpath," + pa])
    die("no Apache Arrow C++ library in " + d)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def config_text(ff, ryu, namespace):
    conf = open(os.path.join(REPO, "src/geoarrow/geoarrow_config.h.in")).read()
    for k, v in {"GEOARROW_VERSION_MAJOR": "0", "GEOARROW_VERSION_MINOR": "2", "GEOARROW_VERSION_PATCH": "0",
                 "GEOARROW_VERSION": "0.2.0-SNAPSHOT",
                 "GEOARROW_USE_FAST_FLOAT_DEFINE": "#define GEOARROW_USE_FAST_FLOAT %d" % ff,
                 "GEOARROW_USE_RYU_DEFINE": "#define GEOARROW_USE_RYU %d" % ryu,
                 "GEOARROW_NAMESPACE_DEFINE": namespace}.items():
        conf = conf.replace("@%s@" % k, v)
    return conf


def build(runs):
    """Builds every (src, config) pair; returns {(src, config): binary}."""
    jobs, bins, links, copies = [], {}, [], []
    th = tree_hash([os.path.join(REPO, "src")], "")
    for src, cname in sorted(set((r["src"], r["config"]) for r in runs)):
        if src.endswith(".py"):
            bins[(src, cname)] = pybuild.build_py(REPO, BUILD, die)
            continue
        cfg = CONFIGS[cname]
        inc = os.path.join(BUILD, "inc-" + cname)
        os.makedirs(os.path.join(inc, "geoarrow"), exist_ok=True)
        conf = config_text(cfg["ff"], cfg["ryu"], "")
        cpath = os.path.join(inc, "geoarrow/geoarrow_config.h")
        if not os.path.exists(cpath) or open(cpath).read() != conf:
            with open(cpath, "w") as f:
                f.write(conf)
        san = SAN[cfg["san"]]
        base = ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-w", "-I" + inc,
                "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/vendor"), "-I" + HAR] + san
        if cfg["san"] == "tsan":
            base.append("-DHZ_NO_WRAP")
        if not cfg["ryu"]:
            base.append("-DHZ_CONFIG_B")
        if cfg["san"] == "none":
            base += ["-DHZ_MEMCHECK", "-DHZ_NEAR"]
        od = os.path.join(BUILD, "%s-%s" % (cname, th))
        os.makedirs(od, exist_ok=True)
        objs = []
        for s in sources(cfg):
            o = os.path.join(od, os.path.basename(s) + ".o")
            objs.append(o)
            if not os.path.exists(o):
                comp = [CXX, "-std=c++17"] if s.endswith(".cc") else [CC, "-std=gnu99"]
                jobs.append((comp + base + cfg.get("lib", []) + ["-c", s, "-o", o + ".tmp"], o))
        hh = tree_hash([HAR], th + " ".join(base))
        cstd, lstd = extra_flags(src)
        mine = ["rt.cc", src] + (["p33_work.cc"] if src == "p33.cc" else [])
        for s in mine:
            o = os.path.join(od, "%s-%s.o" % (s, hh))
            objs.append(o)
            if not os.path.exists(o):
                std = cstd if s == src else ["-std=c++17"] + (["-fvisibility=hidden"] if s == "p33_work.cc" else [])
                jobs.append(([CXX] + base + std + ["-c", os.path.join(HAR, s), "-o", o + ".tmp"], o))
        b = os.path.join(od, "%s-%s.bin" % (src, hh))
        bins[(src, cname)] = b
        if src == "p33.cc":
            copies.append((ns_dir(b), [f for f in base if not f.startswith("-I")], san))
        if not os.path.exists(b):
            links.append(([CXX] + san + ([] if cfg["san"] == "tsan" else WRAP) + objs + lstd + ["-lpthread", "-lm", "-o", b + ".tmp"], b))
    if any(r["src"] == "p32.cc" for r in runs):
        make_locales()
    seen, todo = set(), []
    for c, o in jobs:
        if o not in seen:
            seen.add(o)
            todo.append((c, o))
    # slow translation units first
    todo.sort(key=lambda j: -os.path.getsize(j[0][j[0].index("-c") + 1]) - (10**7 if "/harness/" in j[0][j[0].index("-c") + 1] else 0))

    def one(j):
        c, o = j
        r = sh(c)
        if r.returncode == 0:
            os.replace(o + ".tmp", o)
        return r, c
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r, c in ex.map(one, todo):
            if r.returncode:
                die("build failed: %s\n%s" % (" ".join(c[-4:]), r.stdout[-3000:]))
        for r, c in ex.map(one, links):
            if r.returncode:
                die("link failed:\n%s" % r.stdout[-3000:])
    for d, flags, san in copies:
        if not os.path.exists(os.path.join(d, "done")):
            nsbuild.build_copies(sys.modules[__name__], d, flags, san)
            open(os.path.join(d, "done"), "w").close()
    return bins


def ns_dir(binary):
    """Where the copies are that this binary loads; bundling depends on the build files, too"""
    h = hashlib.sha256(binary.encode())
    for f in ("CMakeLists.txt",):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    with open(nsbuild.__file__, "rb") as fh:
        h.update(fh.read())
    return os.path.join(os.path.dirname(binary), "ns-" + h.hexdigest()[:16])


def make_locales():
    """Locales that write numbers differently, if the system can make them"""
    d = os.path.join(BUILD, "locale")
    os.makedirs(d, exist_ok=True)

    def one(n):
        o = os.path.join(d, n + ".UTF-8")
        if not os.path.isdir(o):
            t = "%s.tmp%d" % (o, os.getpid())
            sh(["localedef", "--no-archive", "-c", "-i", n, "-f", "UTF-8", t])
            if os.path.isdir(t):
                os.replace(t, o)
    if shutil.which("localedef"):
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, LOCALES))


def classify(rc, err):
    m = re.search(r"HZ-HANG|^Timeout \(", err, re.M)
    if m:
        return "hang"
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+).*?(?:/src/(?:geoarrow|vendor)/|geoarrow/c)", err)
    where = fr[0] if fr else "?"
    m = re.search(r"AddressSanitizer: hard rss limit", err)
    if m:
        return "memory-blowup"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        return "asan:%s:%s" % (m.group(1), where)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        t = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:80]
        return "ubsan:%s:%s" % (t, where)
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
    if m:
        return "tsan:%s:%s" % (m.group(1).strip(), where)
    m = re.search(r"^==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid|Uninitialised byte|Jump to|Mismatched|Source and dest)\w*.*", err, re.M)
    if m:
        fr = [f for f, w in re.findall(r"^==\d+==    (?:at|by) 0x[0-9A-F]+: ([^\s(]+).*\(([^()]*):\d+\)", err[m.start():], re.M) if w.endswith((".c", ".h", ".hpp"))]
        return "memcheck:%s:%s" % (m.group(1).replace(" ", "-"), fr[0] if fr else "?")
    return "crash:rc%d:%s" % (rc, where)


def env(extra=None):
    e = dict(os.environ)
    e.update(ASAN_OPTIONS=ASAN_OPTIONS, UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS=TSAN_OPTIONS, LC_ALL="C", ARROW_DEFAULT_MEMORY_POOL="system")
    e.pop("LD_PRELOAD", None)
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if sym:
        e["ASAN_SYMBOLIZER_PATH"] = sym
        e["TSAN_OPTIONS"] += ":external_symbolizer_path=" + sym
    if extra:
        e.update(extra)
    return e


def command(run, binary):
    """How to start a harness, and what its environment needs on top"""
    if not run["src"].endswith(".py"):
        e = env(dict(LOCPATH=os.path.join(BUILD, "locale")) if run["src"] == "p32.cc" else None)
        if run["src"] == "p33.cc":
            e["HZ_NS"] = ns_dir(binary)
            e["ASAN_OPTIONS"] += ":detect_odr_violation=0"
        if CONFIGS[run["config"]]["san"] == "none":
            vg = shutil.which("valgrind")
            if not vg:
                die("valgrind is not there")
            return [vg, "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20", "--expensive-definedness-checks=yes", binary], e
        return [binary], e
    # Python's own objects go through malloc, where ASan watches them
    e = env(dict(LD_PRELOAD=pybuild.runtime(), PYTHONMALLOC="malloc", ARROW_DEFAULT_MEMORY_POOL="system", PYTHONDONTWRITEBYTECODE="1",
                 PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"))
    return [pybuild.VENV + "python", os.path.join(HAR, run["src"]), "--pkg", binary], e


def head(err):
    m = re.search(r"ERROR:|runtime error:|WARNING: Thread|Conditional jump|Use of uninit|Uninitialised byte|Invalid ", err)
    p = max(0, m.start() - 100) if m else max(0, len(err) - 3500)
    return err[p:p + 3500]


HANG = threading.Event()  # one hang is confirmed: it takes too long to wait for more of them


def run_shard(prop, run, binary, shard, nshards, cases, seed, thorough, tmp):
    """Returns dict(done, fails, crashes, counts, samples, distinct, inconclusive)."""
    res = dict(done=0, fails=[], crashes=[], counts={}, samples=[], distinct=set(), inconclusive=[])
    start = 0
    cpu = run.get("cpu", 20)
    start_cmd, e = command(run, binary)
    for attempt in range(12):
        if HANG.is_set():
            return res
        out = os.path.join(tmp, "%s-%s-%d-%d.json" % (run["src"], run["config"], shard, attempt))
        crumb = out + ".crumb"
        cmd = start_cmd + ["--seed", str(seed), "--shard", str(shard), "--nshards", str(nshards), "--cases", str(cases),
               "--from", str(start), "--out", out, "--crumb", crumb, "--cpu", str(cpu), "--known", ",".join(known(prop))]
        if thorough:
            cmd.append("--thorough")
        if os.path.exists(out):
            os.remove(out)
        with open(out + ".err", "w") as ef:
            rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=e, stdin=subprocess.DEVNULL).returncode
        if rc == 0 and os.path.exists(out):
            j = json.load(open(out))
            res["done"] += j["done"]
            res["fails"] += j["fails"]
            for k, v in j["counts"].items():
                res["counts"][k] = res["counts"].get(k, 0) + v
            res["samples"] += j["samples"]
            d = open(out + ".distinct", "rb").read()
            res["distinct"].update(struct.unpack("<%dQ" % (len(d) // 8), d))
            return res
        err = open(out + ".err", errors="replace").read()
        try:
            c = open(crumb, "rb").read()
            idx, active = struct.unpack("<QQ", c[:16])
            text = c[16:].split(b"\0")[0].decode("latin1")
        except Exception:
            idx, active, text = 0, 0, ""
        if not active:
            res["inconclusive"].append("shard %d died outside a case rc=%d %s" % (shard, rc, err[-400:]))
            return res
        key = classify(rc, err)
        if key == "hang" and HANG.is_set():
            return res
        # re-run that case alone before believing it
        cmd2 = start_cmd + ["--seed", str(seed), "--cases", str(cases), "--only", str(idx), "--cpu", str(cpu * 3 if cpu < 100 else cpu * 3 // 2)]
        if thorough:
            cmd2.append("--thorough")
        r2 = subprocess.run(cmd2, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", env=e, stdin=subprocess.DEVNULL)
        if r2.returncode != 0:
            res["crashes"].append(dict(case=idx, key=classify(r2.returncode, r2.stderr), detail=text, report=head(r2.stderr)))
        elif run["config"] in ("T", "U") and key.startswith("tsan:"):
            # schedules do not repeat: a TSan report stands on its own
            res["crashes"].append(dict(case=idx, key=key, detail=text, report=head(err)))
        else:
            res["inconclusive"].append("case %d: %s did not repeat" % (idx, key))
        res["done"] += 1
        start = idx + 1
        if res["crashes"] and res["crashes"][-1]["key"] == "hang":
            HANG.set()
        if len(res["crashes"]) >= 4:
            return res
    return res


def known(prop):
    ks = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                ks[m.group(2)] = m.group(3)
    return ks


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = 1.0
    only = None
    i = 0
    pos = []
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--seed":
            seed = int(args[i + 1]); i += 2
        elif args[i] == "--scale":
            scale = float(args[i + 1]); i += 2
        elif args[i] == "--replay":
            only = json.load(open(args[i + 1])); i += 2
        else:
            pos.append(args[i]); i += 1
    if only:
        pos = [only["property"]]
        seed, tier = only["seed"], only["tier"]
    prop = pos[0]
    chk = CHECKS[prop]
    t0 = time.time()
    if only:
        run = only["run"]
        b = build([run])[(run["src"], run["config"])]
        start_cmd, e = command(run, b)
        cmd = start_cmd + ["--seed", str(seed), "--cases", str(only["cases"]), "--only", str(only["case"]), "-v"]
        if tier == "thorough":
            cmd.append("--thorough")
        sys.exit(subprocess.run(cmd, env=e).returncode)
    runs = chk["runs"]
    os.makedirs(EVID, exist_ok=True)
    bins = build(runs)
    tbuild = time.time() - t0
    tmp = os.path.join(BUILD, "tmp-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    viol, inconc, counts, samples, per_run = {}, [], {}, [], []
    total, distinct = 0, set()
    try:
        for run in runs:
            cases = int(run["thorough" if tier == "thorough" else "quick"] * scale) or 1
            ns = run.get("shards", NPROC)
            with cf.ThreadPoolExecutor(ns) as ex:
                rs = list(ex.map(lambda s: run_shard(prop, run, bins[(run["src"], run["config"])], s, ns, cases, seed, tier == "thorough", tmp), range(ns)))
            done = sum(r["done"] for r in rs)
            total += done
            rd = set().union(*[r["distinct"] for r in rs])
            distinct |= {(run["src"], x) for x in rd}
            for r in rs:
                inconc += r["inconclusive"]
                samples += r["samples"]
                for k, v in r["counts"].items():
                    counts[k] = counts.get(k, 0) + v
                for f in r["fails"] + r["crashes"]:
                    f = dict(f, run=run, cases=cases)
                    viol.setdefault(f["key"], []).append(f)
            per_run.append(dict(harness=run["src"], config=run["config"], cases=done, distinct=len(rd)))
            if HANG.is_set():
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ks = known(prop)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    bad = 0
    for n, (key, fs) in enumerate(sorted(viol.items())):
        f = min(fs, key=lambda x: x["case"])
        if key in ks:
            print("KNOWN-FINDING: property=%s key=%s %s" % (prop, key, ks[key]))
            continue
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        with open(path, "w") as fh:
            json.dump(dict(property=prop, seed=seed, tier=tier, **f), fh, indent=1)
        bad += 1
        print("key=%s cases=%d first=%d: %s" % (key, len(fs), f["case"], f["detail"][:600]))
        if f.get("report"):
            print("\n".join(f["report"].splitlines()[:18]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    need = chk.get("require", [])
    ev = dict(property=prop, tier=tier, seed=seed, level=chk.get("level", "exploration"),
              coverage=dict(evaluations=total, distinct_nontrivial=len(distinct), rule=chk["rule"],
                            samples=samples[:6] or ["(none)"], observed=counts, runs=per_run,
                            inconclusive=inconc[:10]),
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=bad)
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct, build %.1fs, total %.1fs, violations=%d inconclusive=%d" %
          (prop, tier, seed, total, len(distinct), tbuild, time.time() - t0, bad, len(inconc)))
    if bad:
        sys.exit(1)
    missing = [k for k in need if not counts.get(k)]
    if total == 0 or not distinct or missing:
        die("monitors observed nothing (missing %s)" % missing)
    if inconc:
        print("inconclusive: " + "; ".join(inconc[:3]))
        if len(inconc) > 5 or any("outside a case" in x for x in inconc):
            sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
