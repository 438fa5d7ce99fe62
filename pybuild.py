"""Builds the Python extension from /repo's working tree with ASan (bindings) and
ASan+UBSan (the C library below it) into the build directory."""
import concurrent.futures as cf, glob, hashlib, os, shutil, subprocess

VENV = "/opt/vp/venv/bin/"
UB = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute,function,vptr,alignment", "-fno-sanitize-recover=all"]


def runtime():
    return subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()


def build_py(repo, build, die):
    c = os.path.join(repo, "src/geoarrow")
    py = os.path.join(repo, "python/geoarrow-c/src/geoarrow/c")
    # the same files that the package's own bootstrap.py collects
    vendored = [(f, os.path.relpath(f, c)) for pat in ("*.c", "*.h", "geoarrow.hpp", "double_parse_fast_float.cc", "hpp/*.hpp", "ryu/*.h", "ryu/*.c")
                for f in sorted(glob.glob(os.path.join(c, pat)))]
    nano = os.path.join(repo, "src/vendor/nanoarrow")
    vendored += [(f, "nanoarrow/" + os.path.basename(f)) for f in sorted(glob.glob(nano + "/*")) if os.path.isfile(f)]
    vendored.append((os.path.join(py, "geoarrow_python/geoarrow_config.h"), "geoarrow_config.h"))
    own = [os.path.join(py, f) for f in ("_lib.pyx", "lib.py", "__init__.py")] + sorted(glob.glob(py + "/geoarrow_python/*.h"))
    h = hashlib.sha256()
    for f in [v[0] for v in vendored] + own + [__file__]:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    d = os.path.join(build, "py-" + h.hexdigest()[:16])
    pkg = os.path.join(d, "pkg/geoarrow/c")
    done = os.path.join(d, "done")
    if os.path.exists(done):
        return os.path.join(d, "pkg")
    shutil.rmtree(d, ignore_errors=True)
    v = os.path.join(d, "v")
    for f, rel in vendored:
        dst = os.path.join(v, "geoarrow", rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copyfile(f, dst)
    os.makedirs(pkg)
    for f in ("lib.py", "__init__.py"):
        shutil.copyfile(os.path.join(py, f), os.path.join(pkg, f))
    with open(os.path.join(pkg, "_version.py"), "w") as f:
        f.write('__version__ = "0.2.0"\n__version_tuple__ = (0, 2, 0)\n')
    cpp = os.path.join(d, "_lib.cpp")

    def sh(cmd):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

    inc = subprocess.run([VENV + "python", "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True).stdout.strip()
    base = ["-gline-tables-only", "-fno-omit-frame-pointer", "-w", "-fPIC", "-shared-libasan", "-DGEOARROW_NAMESPACE=GeoArrowPythonPkg",
            "-DNANOARROW_NAMESPACE=GeoArrowPythonPkg", "-I" + inc, "-I" + v, "-I" + v + "/geoarrow", "-I" + py + "/geoarrow_python"]

    def bindings():
        r = sh([VENV + "cython", "--cplus", "-3", "--module-name", "geoarrow.c._lib", os.path.join(py, "_lib.pyx"), "-o", cpp])
        if r.returncode:
            return r, None
        o = cpp + ".o"
        return sh(["clang++", "-std=c++17", "-O0", "-fsanitize=address"] + base + ["-c", cpp, "-o", o]), o

    def unit(s):
        o = os.path.join(d, os.path.relpath(s, v).replace("/", "_") + ".o")
        comp = ["clang++", "-std=c++17"] if s.endswith(".cc") else ["clang", "-std=gnu99"]
        return sh(comp + ["-O1"] + UB + base + ["-c", s, "-o", o]), o
    # setup.py compiles every C and C++ file except the tests
    units = [os.path.join(v, "geoarrow", rel) for _, rel in vendored
             if rel.endswith((".c", ".cc")) and not rel.endswith(("_test.c", "_test.cc"))]
    with cf.ThreadPoolExecutor(8) as ex:
        first = ex.submit(bindings)
        rs = list(ex.map(unit, units)) + [first.result()]
    for r, o in rs:
        if r.returncode:
            die("python extension: build failed\n" + r.stdout[-3000:])
    r = sh(["clang++", "-shared", "-fsanitize=address,undefined", "-shared-libasan"] + [o for _, o in rs] + ["-o", os.path.join(pkg, "_lib.so")])
    if r.returncode:
        die("python extension: link failed\n" + r.stdout[-3000:])
    open(done, "w").close()
    return os.path.join(d, "pkg")
