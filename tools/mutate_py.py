#!/usr/bin/env python3
"""Mutation campaign for the Python bindings (development aid, no check): small edits of
_lib.pyx and of the headers beside it, each run against quick P29. mutate_py.py OUT --n 40 --jobs 2"""
import argparse, concurrent.futures as cf, os, random, re, shutil, subprocess, tempfile
REPO = "/repo"
PY = "python/geoarrow-c/src/geoarrow/c/"


def mutants(text, start, rng):
    out, lines = [], text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if i < start or not s or s.startswith(("#", '"', "//", "*", "/*", "cdef extern", "import", "from")):
            continue

        def put(new, what):
            if new != l:
                out.append((i, "\n".join(lines[:i] + [new] + lines[i + 1:]), what))
        for a, bs in ((" == ", [" != "]), (" != ", [" == "]), (" and ", [" or "]), (" or ", [" and "]), (" + ", [" - "]), (" - ", [" + "]), (" < ", [" <= "]),
                      ("True", ["False"]), ("False", ["True"]), (" is None", [" is not None"]), (" is not None", [" is None"]), ("edge_type", ["crs_type"]),
                      ("crs_type", ["edge_type"]), ("geometry_type", ["coord_type"]), ("coord_type", ["dimensions"]), ("dimensions", ["geometry_type"]),
                      ("extension_name", ["extension_metadata"]), ("extension_metadata", ["extension_name"]), ("int64_t", ["int32_t"]), ("[i]", ["[0]"]), (".offset", [".length"])):
            for m in re.finditer(re.escape(a), l):
                for b in bs:
                    put(l[:m.start()] + b + l[m.end():], "%s->%s" % (a, b))
        for m in re.finditer(r"(?<![\w.\"%])(\d+)(?![\w.\"])", l):
            put(l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():], "%s+1" % m.group(1))
        ind = re.match(r"\s*", l).group(0)
        if re.match(r"(self\.|Py_|[\w.]+\(|[\w.\[\]]+ = )", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}") and not s.endswith((":", "\\", ",")):
            put(ind + (";" if ind and text.startswith(("//", "#i")) else "pass"), "delete")
        if re.match(r"if .*:$", s):
            put(ind + "if False:", "never")
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--n", type=int, default=40); ap.add_argument("--jobs", type=int, default=2); ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    rng = random.Random(a.seed)
    t = open(os.path.join(REPO, PY, "_lib.pyx")).read()
    start = next(i for i, l in enumerate(t.split("\n")) if l.startswith("class GeoArrowCException"))
    ms = mutants(t, start, rng)
    rng.shuffle(ms)
    seen, pick = {}, []
    for m in ms:
        pick.append((seen.get(m[0], 0), m)); seen[m[0]] = seen.get(m[0], 0) + 1
    pick.sort(key=lambda x: x[0])
    todo = [m for _, m in pick[:a.n]]
    os.makedirs("/tmp/mut", exist_ok=True)

    def one(m):
        d = tempfile.mkdtemp(prefix="py", dir="/tmp/mut")
        try:
            shutil.copytree(os.path.join(REPO, "src"), d + "/repo/src")
            shutil.copytree(os.path.join(REPO, PY), d + "/repo/" + PY, ignore=shutil.ignore_patterns("*.so", "_lib.cpp", "geoarrow"))
            if os.path.exists(REPO + "/CMakeLists.txt"): shutil.copy(REPO + "/CMakeLists.txt", d + "/repo")
            open(d + "/repo/" + PY + "_lib.pyx", "w").write(m[1])
            q = subprocess.run(["python3", "/verif/run.py", "P29"], env=dict(os.environ, HZ_REPO=d + "/repo", HZ_BUILD=d + "/b", HZ_EVIDENCE=d + "/e"),
                               capture_output=True, text=True)
            last = (q.stdout + q.stderr).strip().split("\n")
            why = next((x for x in last if x.startswith("key=")), last[-1] if last else "")
            return m, {0: "SURVIVED", 1: "killed"}.get(q.returncode, "rc%d" % q.returncode), why[:150]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    of = open(a.out, "a")
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for m, st, why in ex.map(one, todo):
            of.write("%s _lib.pyx:%d [%s] %s\n    - %s\n    + %s\n" % (st, m[0] + 1, m[2], why, t.split("\n")[m[0]].strip(), m[1].split("\n")[m[0]].strip()))
            of.flush()


main()
