"""Builds the namespaced copies of the library that P33 loads: shared libraries whose
functions report when they are entered, from /repo's working tree."""
import concurrent.futures as cf, os, shutil, subprocess

COPIES = {"one": dict(ns="HzOne", ff=True, ryu=True), "two": dict(ns="HzTwo", ff=False, ryu=False), "three": dict(ns="HzThree", ff=False, ryu=False, bundle=True)}


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def build_copies(R, d, base, san):
    """R: the run module; base: compiler flags without include paths. Leaves lib_*.so and work_*.so in d"""
    jobs, links = [], []
    for name, c in COPIES.items():
        o = os.path.join(d, name)
        inc = os.path.join(o, "inc")
        os.makedirs(inc + "/geoarrow", exist_ok=True)
        flags = ["-DNANOARROW_NAMESPACE=" + c["ns"]] + ([] if c["ryu"] else ["-DHZ_CONFIG_B"])
        if c.get("bundle"):
            b = os.path.join(o, "cmake")
            shutil.rmtree(b, ignore_errors=True)
            r = sh(["cmake", "-S", R.REPO, "-B", b, "-DGEOARROW_BUNDLE=ON", "-DGEOARROW_USE_RYU=OFF", "-DGEOARROW_USE_FAST_FLOAT=OFF", "-DGEOARROW_NAMESPACE=" + c["ns"]])
            am = os.path.join(b, "amalgamation")
            if r.returncode or not os.path.exists(am + "/geoarrow/geoarrow.c"):
                R.die("bundling failed\n" + r.stdout[-2000:])
            srcs = [am + "/geoarrow/geoarrow.c", os.path.join(R.REPO, "src/vendor/nanoarrow/nanoarrow.c")]
            incs = ["-I" + am, "-I" + os.path.join(R.REPO, "src/vendor")]
        else:
            with open(inc + "/geoarrow/geoarrow_config.h", "w") as f:
                f.write(R.config_text(c["ff"], c["ryu"], "#define GEOARROW_NAMESPACE " + c["ns"]))
            srcs = R.sources(c)
            incs = ["-I" + inc, "-I" + os.path.join(R.REPO, "src"), "-I" + os.path.join(R.REPO, "src/vendor")]
        common = base + ["-fPIC", "-fsemantic-interposition"] + flags + incs + ["-I" + R.HAR]
        objs = []
        for s in srcs:
            p = os.path.join(o, os.path.basename(s) + ".o")
            objs.append(p)
            jobs.append(([R.CXX, "-std=c++17"] if s.endswith(".cc") else [R.CC, "-std=gnu99"]) + common + ["-finstrument-functions", "-c", s, "-o", p])
        w = os.path.join(o, "work.o")
        jobs.insert(0, [R.CXX, "-std=c++17", "-fvisibility=hidden"] + common + ["-c", os.path.join(R.HAR, "p33_work.cc"), "-o", w])
        lib = os.path.join(d, "lib_%s.so" % name)
        link = [R.CXX, "-shared", "-Wl,--hash-style=both"] + san + R.WRAP
        links.append([link + objs + ["-Wl,-soname," + os.path.basename(lib), "-lm", "-o", lib],
                      link + [w, lib, "-Wl,-rpath," + d, "-o", os.path.join(d, "work_%s.so" % name)]])

    def one(j):
        return sh(j), j
    with cf.ThreadPoolExecutor(R.NPROC) as ex:
        for r, j in ex.map(one, jobs):
            if r.returncode:
                R.die("build failed: %s\n%s" % (" ".join(j[-4:]), r.stdout[-3000:]))
    for ls in links:
        for l in ls:
            r = sh(l)
            if r.returncode:
                R.die("link failed\n" + r.stdout[-3000:])
