"""P29 worker: drives the Python bindings (built with ASan+UBSan, Python's own
allocations going through malloc) and compares what they do with a pure-Python
model and with the C functions of the same library called through ctypes.
Same command line and output files as the C++ harnesses (see rt.cc)."""
import sys, os, json, struct, mmap, gc, ctypes, random, hashlib, faulthandler, threading, io, weakref, array, time
from ctypes import c_void_p, c_int64, c_int, c_char_p, CFUNCTYPE, Structure, POINTER, byref, cast, string_at

ARG = {}
a = sys.argv[1:]
i = 0
while i < len(a):
    if a[i] in ("-v", "--thorough"):
        ARG[a[i].strip("-")] = True
        i += 1
    else:
        ARG[a[i].strip("-")] = a[i + 1]
        i += 2
sys.path.insert(0, ARG["pkg"])
import geoarrow.c as ga  # noqa: E402
import geoarrow.c.lib as lib  # noqa: E402
import geoarrow.c._lib as L  # noqa: E402
import numpy as np  # noqa: E402
import pyarrow as pa  # noqa: E402

dll = ctypes.CDLL(L.__file__)
libc = ctypes.CDLL(None)
libc.malloc.restype = c_void_p
libc.malloc.argtypes = [ctypes.c_size_t]
libc.free.argtypes = [c_void_p]
heap = libc.__sanitizer_get_current_allocated_bytes
heap.restype = ctypes.c_size_t


class Bad(BaseException):
    def __init__(self, key, text):
        self.key, self.text = key, text


def require(cond, key, text=""):
    if not cond:
        raise Bad(key, str(text() if callable(text) else text)[:1500])


COUNT, DISTINCT, SAMPLES = {}, set(), []


def count(k, n=1):
    COUNT[k] = COUNT.get(k, 0) + n


def distinct(*x):
    DISTINCT.add(int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "little"))


def sample(x):
    if len(SAMPLES) < 2:
        SAMPLES.append(x[:400])


# ---------------------------------------------------------------- C structs
class CSchema(Structure):
    pass


class CArray(Structure):
    pass


CSchema._fields_ = [("format", c_void_p), ("name", c_void_p), ("metadata", c_void_p), ("flags", c_int64), ("n_children", c_int64),
                    ("children", POINTER(POINTER(CSchema))), ("dictionary", c_void_p), ("release", c_void_p), ("private_data", c_void_p)]
CArray._fields_ = [("length", c_int64), ("null_count", c_int64), ("offset", c_int64), ("n_buffers", c_int64), ("n_children", c_int64),
                   ("buffers", POINTER(c_void_p)), ("children", POINTER(POINTER(CArray))), ("dictionary", c_void_p), ("release", c_void_p),
                   ("private_data", c_void_p)]
REL_A = CFUNCTYPE(None, POINTER(CArray))
REL_S = CFUNCTYPE(None, POINTER(CSchema))


class Rec:
    """One exported structure: the memory it owns and how often it was released."""
    live = {}
    next_id = 1

    def __init__(self):
        self.mem, self.children, self.released, self.keep = [], [], 0, []
        self.id = Rec.next_id
        Rec.next_id += 1
        Rec.live[self.id] = self

    def alloc(self, data):
        p = libc.malloc(max(1, len(data)))
        ctypes.memmove(p, bytes(data), len(data))
        self.mem.append(p)
        return p


ERRORS = []


def release_cb(ptr):
    try:
        s = ptr.contents
        r = Rec.live.get(s.private_data)
        if r is None or r.released:
            ERRORS.append("release callback called for something already released")
            return
        for k in range(s.n_children):
            ch = s.children[k].contents
            if ch.release:
                (REL_A if isinstance(ch, CArray) else REL_S)(ch.release)(s.children[k])
        r.released += 1
        for p in r.mem:
            libc.free(p)
        del Rec.live[r.id]
        s.release = None
    except BaseException as e:  # never let an exception disappear in ctypes
        ERRORS.append("release callback: %r" % (e,))


RA, RS = REL_A(release_cb), REL_S(release_cb)
RA_P, RS_P = cast(RA, c_void_p).value, cast(RS, c_void_p).value


class Node:
    """An Arrow array as plain data."""

    def __init__(self, length, offset, null_count, buffers, children):
        self.length, self.offset, self.null_count, self.buffers, self.children = length, offset, null_count, buffers, children


def export_array(node, dst=None):
    """Writes node to the ArrowArray at address dst (or to a new struct that is returned with the record)."""
    r = Rec()
    s = CArray.from_address(dst) if dst else CArray()
    s.length, s.offset, s.null_count = node.length, node.offset, node.null_count
    s.n_buffers, s.n_children = len(node.buffers), len(node.children)
    bp = r.alloc(b"\0" * 8 * len(node.buffers))
    s.buffers = cast(bp, POINTER(c_void_p))
    for k, b in enumerate(node.buffers):
        s.buffers[k] = None if b is None else r.alloc(b)
    cp = r.alloc(b"\0" * 8 * len(node.children))
    s.children = cast(cp, POINTER(POINTER(CArray)))
    for k, ch in enumerate(node.children):
        p = r.alloc(b"\0" * ctypes.sizeof(CArray))
        s.children[k] = cast(p, POINTER(CArray))
        r.children.append(export_array(ch, p)[0])
    s.dictionary = None
    s.release, s.private_data = RA_P, r.id
    return r, s


def export_schema(sn, dst=None):
    """sn = (format, name, metadata bytes or None, flags, children)"""
    r = Rec()
    s = CSchema.from_address(dst) if dst else CSchema()
    s.format = r.alloc(sn[0].encode() + b"\0")
    s.name = None if sn[1] is None else r.alloc(sn[1].encode() + b"\0")
    s.metadata = None if sn[2] is None else r.alloc(sn[2])
    s.flags, s.n_children = sn[3], len(sn[4])
    cp = r.alloc(b"\0" * 8 * len(sn[4]))
    s.children = cast(cp, POINTER(POINTER(CSchema)))
    for k, ch in enumerate(sn[4]):
        p = r.alloc(b"\0" * ctypes.sizeof(CSchema))
        s.children[k] = cast(p, POINTER(CSchema))
        r.children.append(export_schema(ch, p)[0])
    s.dictionary = None
    s.release, s.private_data = RS_P, r.id
    return r, s


def read_metadata(p):
    if not p:
        return None
    n = struct.unpack("i", string_at(p, 4))[0]
    out, q = [], p + 4
    for _ in range(n):
        kv = []
        for _ in range(2):
            ln = struct.unpack("i", string_at(q, 4))[0]
            kv.append(string_at(q + 4, ln))
            q += 4 + ln
        out.append(tuple(kv))
    return out


def pack_metadata(kv):
    out = struct.pack("i", len(kv))
    for k, v in kv:
        out += struct.pack("i", len(k)) + k + struct.pack("i", len(v)) + v
    return out


def read_schema(s):
    """CSchema -> nested tuples"""
    return (string_at(s.format).decode(), None if not s.name else string_at(s.name).decode(), read_metadata(s.metadata), s.flags,
            [read_schema(s.children[k].contents) for k in range(s.n_children)])


# -------------------------------------------------------------------- types
GEOM = ["geometry", "point", "linestring", "polygon", "multipoint", "multilinestring", "multipolygon"]
DIMS = ["", "xy", "xyz", "xym", "xyzm"]
NATIVE = [(g, d, c) for c in (1, 2) for d in (1, 2, 3, 4) for g in range(1, 7)]
BOX = [(990, d, 1) for d in (1, 2, 3, 4)]
WKB, LWKB, WKT, LWKT, WKBV, WKTV = range(100001, 100007)
SERIAL = [WKB, LWKB, WKT, LWKT, WKBV, WKTV]


def type_id(g, d, c):
    return g + 1000 * (d - 1) + 10000 * (c - 1)


COMP = {type_id(*t): t for t in NATIVE + BOX}
COMP.update({t: (0, 0, 0) for t in SERIAL})
ALL = sorted(COMP)


def ext_name(t):
    g = COMP[t][0]
    if t in (WKB, LWKB, WKBV):
        return "geoarrow.wkb"
    if t in (WKT, LWKT, WKTV):
        return "geoarrow.wkt"
    return "geoarrow.box" if g == 990 else "geoarrow." + GEOM[g]


def tree(t):
    """Layout of a type: ("list", child) ("struct", n) ("fsl", n) ("bin", offset bytes, text)"""
    g, d, c = COMP[t]
    if t in SERIAL:
        return {WKB: ("bin", 4, 0), LWKB: ("bin", 8, 0), WKT: ("bin", 4, 1), LWKT: ("bin", 8, 1), WKBV: ("view", 0), WKTV: ("view", 1)}[t]
    n = len(DIMS[d])
    if g == 990:
        return ("struct", 2 * n)
    x = ("struct", n) if c == 1 else ("fsl", n)
    for _ in range({1: 0, 2: 1, 3: 2, 4: 1, 5: 2, 6: 3}[g]):
        x = ("list", x)
    return x


def formats(t):
    """Expected schema formats as nested tuples"""
    def f(x):
        if x[0] == "list":
            return ("+l", [f(x[1])])
        if x[0] == "struct":
            return ("+s", [("g", [])] * x[1])
        if x[0] == "fsl":
            return ("+w:%d" % x[1], [("g", [])])
        if x[0] == "bin":
            return ({(4, 0): "z", (8, 0): "Z", (4, 1): "u", (8, 1): "U"}[x[1:]], [])
        return ({0: "vz", 1: "vu"}[x[1]], [])
    return f(tree(t))


def holder_schema(t, r):
    """A SchemaHolder for type t, made by the bindings or exported by us"""
    g, d, c = COMP[t]
    if t not in SERIAL and r.random() < 0.3:
        return lib.CGeometryDataType.Make(g, d, c).to_schema()
    h = lib.SchemaHolder()
    export_schema(schema_node(t), h._addr())
    return h


def schema_node(t, kv=()):
    g, d, c = COMP[t]

    def f(x, name):
        if x[0] == "list":
            return ("+l", name, None, 2, [f(x[1], "item")])
        if x[0] == "struct":
            n = DIMS[d]
            names = list(n) if x[1] == len(n) else [k + "min" for k in n] + [k + "max" for k in n]
            return ("+s", name, None, 2, [("g", k, None, 0, []) for k in names])
        if x[0] == "fsl":
            return ("+w:%d" % x[1], name, None, 2, [("g", DIMS[d], None, 0, [])])
        return (formats(t)[0], name, None, 2, [])
    s = f(tree(t), "")
    return (s[0], s[1], pack_metadata([(b"ARROW:extension:name", ext_name(t).encode()), (b"ARROW:extension:metadata", b"{}")] + list(kv)), s[3], s[4])


# ------------------------------------------------------------------- values
def gen_double(r):
    k = r.randrange(6)
    if k < 3:
        return float(r.randrange(-50, 50))
    if k == 3:
        return r.uniform(-1e4, 1e4)
    if k == 4:
        return r.choice([0.0, -0.0, 1e300, 5e-324, 0.1])
    return r.uniform(-1, 1)


def gen_wkb(r, geom=None, d=None, depth=0):
    d = d or r.choice([1, 2, 3, 4])
    geom = geom or r.choice([1, 2, 3, 4, 5, 6, 7] if depth < 2 else [1, 2, 3])
    n = len(DIMS[d])
    e = r.choice("<>") if depth < 9 else "<"
    head = (b"\1" if e == "<" else b"\0") + struct.pack(e + "I", geom + 1000 * (d - 1))

    def pts(k):
        return struct.pack(e + "%dd" % (k * n), *[gen_double(r) for _ in range(k * n)])

    def ring():
        k = r.randrange(5)
        return struct.pack(e + "I", k) + pts(k)
    if geom == 1:
        return head + pts(1)
    if geom == 2:
        return head + ring()
    k = r.randrange(4)
    if geom == 3:
        return head + struct.pack(e + "I", k) + b"".join(ring() for _ in range(k))
    child = {4: 1, 5: 2, 6: 3, 7: None}[geom]
    return head + struct.pack(e + "I", k) + b"".join(gen_wkb(r, child, d, depth + 1) for _ in range(k))


def gen_wkt(r, geom=None, d=None, depth=0):
    d = d or r.choice([1, 2, 3, 4])
    geom = geom or r.choice([1, 2, 3, 4, 5, 6, 7] if depth < 2 else [1, 2, 3])
    n = len(DIMS[d])
    name = (GEOM + ["geometrycollection"])[geom].upper() + ["", " Z", " M", " ZM"][d - 1] + " "

    def pt():
        return " ".join(repr(gen_double(r)) for _ in range(n))

    def seq(lo=1):
        return "(" + ", ".join(pt() for _ in range(r.randrange(lo, 4))) + ")"

    def poly():
        return "(" + ", ".join(seq() for _ in range(r.randrange(1, 3))) + ")"
    if r.randrange(6) == 0:
        return name + "EMPTY"
    if geom == 1:
        return name + "(" + pt() + ")"
    if geom == 2:
        return name + seq()
    if geom in (3, 5):
        return name + poly()
    if geom == 4:
        return name + ("(" + ", ".join("(" + pt() + ")" for _ in range(r.randrange(1, 4))) + ")")
    if geom == 6:
        return name + "(" + ", ".join(poly() for _ in range(r.randrange(1, 3))) + ")"
    return name + "(" + ", ".join(gen_wkt(r, None, d, depth + 1) for _ in range(r.randrange(1, 3))) + ")"


def gen_value(x, r):
    if x[0] == "list":
        return [gen_value(x[1], r) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
    if x[0] in ("struct", "fsl"):
        return tuple(gen_double(r) for _ in range(x[1]))
    text = x[-1]
    return gen_wkt(r).encode() if text else gen_wkb(r)


def gen_rows(x, r, n=None):
    n = r.choice([0, 1, 2, 3, 5, 9, 17]) if n is None else n
    p = r.choice([0, 0, 0.2, 0.6, 1.0])
    return [None if r.random() < p else gen_value(x, r) for _ in range(n)]


def bitmap(flags):
    out = bytearray((len(flags) + 7) // 8)
    for k, f in enumerate(flags):
        if f:
            out[k // 8] |= 1 << (k % 8)
    return bytes(out)


def layout(x, rows, r, top=True, plain=False):
    """rows (None = null, only at the top) -> Node with unused elements around what is referred to"""
    lead = [] if plain else [gen_value(x, r) for _ in range(r.choice([0, 0, 1, 3]))]
    trail = [] if plain else [gen_value(x, r) for _ in range(r.choice([0, 0, 1]))]
    nulls = sum(v is None for v in rows)
    phys = lead + list(rows) + trail
    valid = None
    if top and (nulls or (not plain and r.randrange(4) == 0)):
        valid = bitmap([v is not None for v in phys])
    nc = nulls if (plain or r.randrange(4)) else -1
    if valid is None:
        nc = 0
    if x[0] == "list":
        base = 0 if plain else r.choice([0, 0, 1, 2])
        child = [gen_value(x[1], r) for _ in range(base)]
        offs = [len(child)]
        for v in phys:
            if v is None and not plain and r.randrange(2):
                v = gen_value(x, r)
            child += v or []
            offs.append(len(child))
        # elements that precede what is referred to need not be monotonic, but keep them so
        return Node(len(rows), len(lead), nc, [valid, struct.pack("%di" % len(offs), *offs)], [layout(x[1], child, r, False, plain)])
    if x[0] == "bin":
        data, offs = b"" if plain else bytes(r.randrange(4)), [0]
        offs = [len(data)]
        for v in phys:
            data += v or b""
            offs.append(len(data))
        return Node(len(rows), len(lead), nc, [valid, struct.pack("%d%s" % (len(offs), "i" if x[1] == 4 else "q"), *offs), data], [])
    if x[0] == "view":
        views, data = b"", b""
        for v in phys:
            v = v or b""
            if len(v) <= 12:
                views += struct.pack("i", len(v)) + v.ljust(12, b"\0")
            else:
                views += struct.pack("i4sii", len(v), v[:4], 0, len(data))
                data += v
        return Node(len(rows), len(lead), nc, [valid, views, data, struct.pack("q", len(data))], [])
    n = x[1]
    vals = [v if v is not None else tuple(gen_double(r) for _ in range(n)) for v in phys]

    def doubles(col):
        la = [] if plain else [gen_double(r) for _ in range(r.choice([0, 0, 2]))]
        return Node(len(col), len(la), 0, [None, struct.pack("%dd" % (len(la) + len(col)), *la, *col)], [])
    if x[0] == "struct":
        return Node(len(rows), len(lead), nc, [valid], [doubles([v[k] for v in vals]) for k in range(n)])
    return Node(len(rows), len(lead), nc, [valid], [doubles([c for v in vals for c in v])])


def get_bytes(p, n):
    return string_at(p, n) if p and n > 0 else b""


def decode(s, x, require_valid=True):
    """CArray -> rows (only reads what the array's length entitles to)"""
    def bit(p, k):
        return not p or (string_at(p + k // 8, 1)[0] >> (k % 8)) & 1

    def doubles(c, a0, n):
        require(c.length >= a0 + n, "bad-array", "child of %d for %d + %d" % (c.length, a0, n))
        return list(struct.unpack("%dQ" % n, get_bytes(c.buffers[1] and c.buffers[1] + 8 * (c.offset + a0), 8 * n)))

    def dec(s, x, a0, n, top):
        o = s.offset + a0
        v = s.buffers[0] if s.n_buffers else None
        ok = [bool(bit(v, o + k)) for k in range(n)]
        if x[0] == "list":
            offs = list(struct.unpack("%di" % (n + 1), get_bytes(s.buffers[1] + 4 * o, 4 * (n + 1)))) if n else [0]
            require(all(p <= q for p, q in zip(offs, offs[1:])) and (not n or s.children[0].contents.length >= offs[-1]), "bad-array", offs)
            ch = dec(s.children[0].contents, x[1], offs[0], offs[-1] - offs[0], False)
            out = [ch[offs[k] - offs[0]:offs[k + 1] - offs[0]] for k in range(n)]
        elif x[0] == "bin":
            w = x[1]
            offs = list(struct.unpack("%d%s" % (n + 1, "iq"[w == 8]), get_bytes(s.buffers[1] + w * o, w * (n + 1)))) if n else [0]
            out = [get_bytes(s.buffers[2] and s.buffers[2] + offs[k], offs[k + 1] - offs[k]) for k in range(n)]
        elif x[0] == "struct":
            cols = [doubles(s.children[k].contents, o, n) for k in range(x[1])]
            out = [tuple(c[k] for c in cols) for k in range(n)]
        elif x[0] == "fsl":
            w = x[1]
            d = doubles(s.children[0].contents, o * w, n * w)
            out = [tuple(d[k * w:k * w + w]) for k in range(n)]
        elif x[0] == "null":
            ok = [False] * n
            out = [None] * n
        else:  # "i32"
            out = list(struct.unpack("%di" % n, get_bytes(s.buffers[1] and s.buffers[1] + 4 * o, 4 * n)))
        return [out[k] if ok[k] else None for k in range(n)]
    return dec(s, x, 0, s.length, True)


def bits(x, v):
    """Rows as decode() gives them"""
    if v is None:
        return None
    if x[0] == "list":
        return [bits(x[1], k) for k in v]
    if x[0] in ("struct", "fsl"):
        return tuple(struct.unpack("%dQ" % len(v), struct.pack("%dd" % len(v), *v)))
    return v


def holder_array(node):
    h = lib.ArrayHolder()
    rec, _ = export_array(node, h._addr())
    return h, rec


def raises(f, *exc):
    """Runs f: returns the exception (one of exc), fails if there was none"""
    try:
        f()
    except exc or (Exception,) as e:
        require(not isinstance(e, SystemError), "system-error", repr(e))
        if isinstance(e, lib.GeoArrowCException):
            require(str(e.what) in str(e) and str(e.code) in str(e) and e.message in str(e), "text", lambda: "%r does not say %r, %d and %r" % (str(e), e.what, e.code, e.message))
        return e
    except Exception as e:
        raise Bad("wrong-exception", repr(e))
    raise Bad("no-exception", "expected %r" % (exc,))


# ---------------------------------------------------------------- scenarios
CONST = dict(
    GeometryType=dict(GEOMETRY=0, POINT=1, LINESTRING=2, POLYGON=3, MULTIPOINT=4, MULTILINESTRING=5, MULTIPOLYGON=6, GEOMETRYCOLLECTION=7, BOX=990),
    Dimensions=dict(UNKNOWN=0, XY=1, XYZ=2, XYM=3, XYZM=4), CoordType=dict(UNKNOWN=0, SEPARATE=1, INTERLEAVED=2),
    EdgeType=dict(PLANAR=0, SPHERICAL=1, VINCENTY=2, THOMAS=3, ANDOYER=4, KARNEY=5),
    CrsType=dict(NONE=0, UNKNOWN=1, PROJJSON=2, WKT2_2019=3, AUTHORITY_CODE=4, SRID=5))


def type_state(t):
    return dict(id=int(t.id), geometry_type=int(t.geometry_type), dimensions=int(t.dimensions), coord_type=int(t.coord_type),
                extension_name=t.extension_name, edge_type=int(t.edge_type), crs_type=int(t.crs_type), crs=t.crs)


def gen_crs(r):
    k = r.randrange(6)
    if k == 0:
        return 0, b""
    txt = "".join(r.choice("abcXYZ 0123:/\"\\\n\t{}[]é€") for _ in range(r.randrange(1, r.choice([4, 30, 30, 30, 300, 3000])))).lstrip("{\"").encode() or b"x"
    if k == 2:
        # PROJJSON is JSON
        return 2, json.dumps({"id": {"authority": "OGC", "code": txt.decode()}}).encode()
    return k, txt


def sc_types(r):
    if r.randrange(40) == 0:
        for cls, m in CONST.items():
            for k, v in m.items():
                require(int(getattr(getattr(lib, cls), k)) == v and int(getattr(getattr(ga, cls), k)) == v, "constant", "%s.%s" % (cls, k))
        count("constants")
    if r.randrange(30) == 0:
        e = lib.CGeometryDataType()
        for n in ("id", "geometry_type", "dimensions", "coord_type", "extension_name", "extension_metadata", "edge_type", "crs_type", "crs"):
            raises(lambda: getattr(e, n), ValueError)
        for f in (lambda: e.with_crs(b"", 0), lambda: e.with_dimensions(1), lambda: e.to_schema(), lambda: e.to_storage_schema()):
            raises(f, ValueError)
        repr(e)
        count("uninitialised")
    tid = r.choice(ALL)
    g, d, c = COMP[tid]
    edge, (crs_type, crs) = r.choice([0, 0, 1, 2, 3, 4, 5]), gen_crs(r)
    if tid in SERIAL:
        h = lib.SchemaHolder()
        export_schema(schema_node(tid), h._addr())
        t = lib.CGeometryDataType.FromExtension(h)
    else:
        t = lib.CGeometryDataType.Make(g, d, c)
    want = dict(id=tid, geometry_type=g, dimensions=d, coord_type=c, extension_name=ext_name(tid), edge_type=0, crs_type=0, crs=b"")
    require(type_state(t) == want, "type-components", lambda: "%r != %r" % (type_state(t), want))
    for step in r.sample(["edge", "crs", "dims", "geom", "coord"], r.randrange(1, 6)):
        before, old = t, dict(want)
        if step == "edge":
            t = t.with_edge_type(edge)
            want["edge_type"] = edge
        elif step == "crs":
            t = t.with_crs(crs, crs_type)
            want.update(crs=crs, crs_type=crs_type)
        elif tid in SERIAL or want["geometry_type"] == 990:
            continue
        elif step == "dims":
            want["dimensions"] = r.choice([1, 2, 3, 4])
            t = t.with_dimensions(want["dimensions"])
        elif step == "geom":
            want["geometry_type"] = r.randrange(1, 7)
            t = t.with_geometry_type(want["geometry_type"])
        else:
            want["coord_type"] = r.choice([1, 2])
            t = t.with_coord_type(want["coord_type"])
        if tid not in SERIAL and want["geometry_type"] != 990:
            want["id"] = type_id(want["geometry_type"], want["dimensions"], want["coord_type"])
            want["extension_name"] = ext_name(want["id"])
        require(type_state(t) == want, "with-components", lambda: "%s: %r != %r" % (step, type_state(t), want))
        require(type_state(before) == old, "with-changed-original", lambda: "%s: %r != %r" % (step, type_state(before), old))
        require((t == before) == (old == want), "equality", lambda: "%r %r" % (old, want))
        count("derived")
    tid = want["id"]
    if crs_type not in (0, 2):  # CRS texts that are nearly the same
        a = t.with_crs(crs, crs_type)
        txt, at = crs.decode(), r.randrange(len(crs.decode()) + 1)
        other = (txt[:at] + r.choice("xyz") + txt[at + r.randrange(2):]).lstrip("{\"").encode()
        b = t.with_crs(other, crs_type)
        require((a == b) == (crs == other) and (a != b) == (crs != other), "equality-crs", lambda: "%r %r" % (crs, other))
        require(a == t.with_crs(crs, crs_type), "equality-crs", lambda: "%r" % crs)
        kind = r.choice([k for k in (1, 3, 4, 5) if k != crs_type])  # the same text as another kind of CRS, and no CRS
        for o in (t.with_crs(crs, kind), t.with_crs(b"", 0)):
            require(a != o and o != a and not a == o and not o == a, "equality-crs", lambda: "%r as %r and %r" % (crs, crs_type, type_state(o)))
        count("similar_crs")
    repr(t)
    # schemas
    sh, st = t.to_schema(), t.to_storage_schema()
    s1, s2 = read_schema(CSchema.from_address(sh._addr())), read_schema(CSchema.from_address(st._addr()))

    def fm(s):
        return (s[0], [fm(k) for k in s[4]])
    require(fm(s1) == formats(tid) and fm(s2) == formats(tid), "schema-layout", lambda: "%d: %r" % (tid, s1))
    md = dict(s1[2] or [])
    require(md.get(b"ARROW:extension:name") == ext_name(tid).encode(), "schema-extension-name", lambda: "%r" % (md,))
    require(md.get(b"ARROW:extension:metadata", b"") == t.extension_metadata, "schema-extension-metadata", lambda: "%r %r" % (md, t.extension_metadata))
    require(not any(k.startswith(b"ARROW:extension") for k, _ in (s2[2] or [])), "storage-extension", lambda: "%r" % (s2,))
    u = lib.CGeometryDataType.FromExtension(sh)
    require(u == t and type_state(u) == want, "from-extension", lambda: "%r != %r" % (type_state(u), want))
    u2 = lib.CGeometryDataType.FromStorage(st, t.extension_name.encode(), t.extension_metadata)
    require(u2 == t and type_state(u2) == want, "from-storage", lambda: "%r != %r" % (type_state(u2), want))
    require(sh.is_valid() and st.is_valid(), "schema-consumed")
    require(not (t == 1) and t != "x", "equality-other")
    if tid not in SERIAL:
        u3 = lib.CGeometryDataType.Make(want["geometry_type"], want["dimensions"], want["coord_type"], t.extension_metadata)
        require(u3 == t and type_state(u3) == want, "make-metadata", lambda: "%r != %r" % (type_state(u3), want))
    del u, u2
    sh.release()
    require(not sh.is_valid(), "released-still-valid")
    raises(sh.release, ValueError)
    raises(lambda: lib.CGeometryDataType.FromExtension(sh), ValueError)
    require(type_state(t) == want, "type-depends-on-schema")
    count("types")
    distinct("type", sorted(want.items()))
    sample("type %r" % (want,))


def sc_holders(r):
    """Ownership: each exported array is released exactly once, whichever way it goes"""
    t = r.choice([k for k in ALL if k not in SERIAL])
    x = tree(t)
    rows = gen_rows(x, r)
    node = layout(x, rows, r)
    want = [bits(x, v) for v in rows]
    h, rec = holder_array(node)
    sh = holder_schema(t, r)
    require(h.is_valid() and sh.is_valid(), "holder-invalid")
    require(decode(CArray.from_address(h._addr()), x) == want, "holder-content")
    how = r.choice(["del", "release", "pyarrow", "pyarrow-back"])
    if how == "del":
        del h
    elif how == "release":
        h.release()
        require(not h.is_valid(), "released-still-valid")
        raises(h.release, ValueError)
    else:
        storage = lib.SchemaHolder()
        s = schema_node(t)
        export_schema((s[0], s[1], None, s[3], s[4]), storage._addr())
        arr = pa.Array._import_from_c(h._addr(), storage._addr())
        require(not h.is_valid() and not storage.is_valid(), "moved-still-valid")
        require(not rec.released, "released-early")
        arr.validate(full=True)
        if how == "pyarrow-back":
            h2, s2 = lib.ArrayHolder(), lib.SchemaHolder()
            arr._export_to_c(h2._addr(), s2._addr())
            del arr
            gc.collect()
            require(h2.is_valid() and not rec.released, "released-early")
            require(decode(CArray.from_address(h2._addr()), x) == want, "pyarrow-roundtrip")
            if r.randrange(2):
                h2.release()
            del h2, s2
        else:
            del arr
    gc.collect()
    require(rec.released == 1, "release-count", "%s: %d" % (how, rec.released))
    count("ownership")
    distinct("holder", t, how, want)


def view_expect(t, node):
    """[(bytes needed, physical bytes from the buffer's start, item size, format)]"""
    x, out, n, used = tree(t), [], node, node.length
    while x[0] == "list":
        out.append(((n.offset + used + 1) * 4 if n.length else 0, n.buffers[1], 4, "i", n.length == 0))
        used = struct.unpack_from("i", n.buffers[1], 4 * (n.offset + used))[0] if n.length else 0
        n, x = n.children[0], x[1]
    if x[0] == "bin":
        out.append(((n.offset + used + 1) * 4 if n.length else 0, n.buffers[1], 4, "i", n.length == 0))
        used = struct.unpack_from("i", n.buffers[1], 4 * (n.offset + used))[0] if n.length else 0
        out.append((used, n.buffers[2], 1, "B", False))
    elif x[0] == "struct":
        out += [((n.offset + used) * 8, ch.buffers[1][8 * ch.offset:], 8, "d", False) for ch in n.children]
    else:
        ch = n.children[0]
        out.append(((n.offset + used) * 8 * x[1], ch.buffers[1][8 * ch.offset:], 8, "d", False))
    return out


def check_buffer(b, e, what):
    need, phys, item, fmt, empty = e
    m = memoryview(b)
    require(m.readonly and m.format == fmt and m.itemsize == item and m.ndim == 1 and m.c_contiguous, "view-buffer-shape",
            lambda: "%s: %r %r %r" % (what, m.format, m.itemsize, m.readonly))
    got = bytes(m)
    if empty and got == b"\0\0\0\0":
        return
    require(need <= len(got) <= len(phys), "view-buffer-length", lambda: "%s: %d bytes, array refers to %d of %d" % (what, len(got), need, len(phys)))
    require(got == phys[:len(got)], "view-buffer-content", lambda: "%s: %s != %s" % (what, got.hex()[:300], phys[:len(got)].hex()[:300]))


def sc_views(r):
    t = r.choice(ALL)
    x = tree(t)
    rows = gen_rows(x, r)
    node = layout(x, rows, r)
    sh = holder_schema(t, r)
    if r.randrange(12) == 0:
        # unsuitable arrays
        other = r.choice(ALL)
        def form(s):
            return (s[0],) + tuple(form(s[1]) for _ in range(s[0] == "list")) if s[0] == "list" else (s[0], s[1] if s[0] == "struct" else 0)
        if form(tree(other)) != form(x) and "view" not in (tree(other)[0], x[0]) and "bin" not in (tree(other)[0],):
            y = tree(other)
            h, rec = holder_array(layout(y, gen_rows(y, r), r))
            raises(lambda: lib.CArrayView(h, sh), lib.GeoArrowCException, ValueError)
            require(h.is_valid() and not rec.released, "released-early")
            del h
            gc.collect()
            require(rec.released == 1, "release-count")
            count("misfits")
        return
    h, rec = holder_array(node)
    if t in (LWKB, LWKT, WKBV, WKTV):
        raises(lambda: lib.CArrayView(h, sh), lib.GeoArrowCException, ValueError)
        count("unsupported")
        return
    v = lib.CArrayView(h, sh)
    exp = view_expect(t, node)
    bufs = v.buffers()
    require(bufs[0] is None and len(bufs) == 1 + len(exp), "view-buffer-count", lambda: "%d: %d of %d" % (t, len(bufs) - 1, len(exp)))
    for k, e in enumerate(exp):
        check_buffer(bufs[k + 1], e, "type %d buffer %d" % (t, k + 1))
        count("buffers")
    # nothing writes to the array through a view of it
    k = r.randrange(len(exp))
    raises(lambda: io.BytesIO(b"\xaa" * 8).readinto(bufs[k + 1]), BufferError, TypeError)
    raises(lambda: (ctypes.c_char * 0).from_buffer(bufs[k + 1]), BufferError, TypeError)
    # what was taken from the view outlives everything else, in any order of deletion
    pool = [("holder", h), ("schema", sh), ("view", v)]
    pool += [("buf%d" % (k + 1), b) for k, b in enumerate(bufs[1:])]
    for k in range(len(exp)):
        if r.randrange(2):
            pool.append(("mem%d" % (k + 1), memoryview(bufs[k + 1])))
        if r.randrange(3) == 0 and len(memoryview(bufs[k + 1])):
            pool.append(("np%d" % (k + 1), np.asarray(bufs[k + 1])))
    if r.randrange(3) == 0:
        sh.release()
        count("schema_gone")
    del h, sh, v, bufs
    order = []
    while pool:
        name, o = pool.pop(r.randrange(len(pool)))
        order.append(name)
        del o
        if r.randrange(4) == 0:
            gc.collect()
        keeps = [n for n, _ in pool if n != "schema"]
        require(not keeps or not rec.released, "released-early", lambda: "after %r with %r left" % (order, keeps))
        for n, o in pool:
            if n[:3] in ("buf", "mem") and r.randrange(2):
                check_buffer(o, exp[int(n[3:]) - 1], "later %s" % n)
                count("rechecks")
            elif n == "view" and r.randrange(3) == 0:
                for b, e in zip(o.buffers()[1:], exp):
                    check_buffer(b, e, "again")
                b = None
            elif n[:2] == "np":
                e = exp[int(n[2:]) - 1]
                require(o.tobytes() == e[1][:o.nbytes] or (e[4] and o.tobytes() == b"\0\0\0\0"), "view-buffer-content", "numpy")
            n = o = None
        o = None
    gc.collect()
    require(rec.released == 1, "release-count", "%d %r" % (rec.released, order))
    count("views")
    distinct("view", t, node.offset, [e[1] for e in exp])
    sample("view of type %d, %d rows, offset %d, deletion order %s" % (t, node.length, node.offset, order))


def buffer_object(data, kind, r):
    """data as one of many Python objects; returns (object, what it is)"""
    np_t = {"u": np.uint8, "i": np.int32, "d": np.float64}[kind]
    size = {"u": 1, "i": 4, "d": 8}[kind]
    arr = np.frombuffer(data, np_t).copy()
    k = r.choice(["np", "np", "array", "cast", "slice", "readonly"] + (["bytes", "bytearray", "bytearray", "mmap"] if kind == "u" else []))
    if k == "np":
        return arr, k
    if k == "array":
        return array.array({"u": "B", "i": "i", "d": "d"}[kind], arr.tolist() if kind != "d" else arr), k
    if k == "cast":
        return memoryview(bytearray(data)).cast({"u": "B", "i": "i", "d": "d"}[kind]), k
    if k == "slice":
        big = np.concatenate([np.zeros(8, np_t), arr, np.zeros(2, np_t)])
        return big[8:8 + len(arr)], k
    if k == "readonly":
        arr.setflags(write=False)
        return arr, k
    if k == "mmap" and len(data):
        m = mmap.mmap(-1, len(data))
        m[:] = data
        return m, k
    return (bytearray(data) if k == "bytearray" else bytes(bytearray(data))), k


def set_buffer(b, i, kind, obj):
    {"u": b.set_buffer_uint8, "i": b.set_buffer_int32, "d": b.set_buffer_double}[kind](i, obj)


def plain_buffers(t, node):
    """Builder buffers of an array without offsets: [(kind, bytes)]"""
    out, n, x = [("u", node.buffers[0])], node, tree(t)
    while x[0] == "list":
        out.append(("i", n.buffers[1]))
        n, x = n.children[0], x[1]
    if x[0] == "bin":
        return out + [("i" if x[1] == 4 else "u", n.buffers[1]), ("u", n.buffers[2])]
    return out + [("d", ch.buffers[1]) for ch in n.children]


class Token:
    pass


def release_without_gil(h, how):
    """Calls the array's release callback the way foreign code does"""
    s = CArray.from_address(h._addr())
    f = REL_A(s.release)  # a CFUNCTYPE call gives up the GIL
    if how == "thread":
        th = threading.Thread(target=lambda: f(byref(s)))
        th.start()
        th.join()
    else:
        f(byref(s))


def sc_builder(r):
    t = r.choice(ALL)
    sh = holder_schema(t, r)
    if t in (WKBV, WKTV):
        raises(lambda: lib.CBuilder(sh), lib.GeoArrowCException, ValueError)
        return
    b = lib.CBuilder(sh)
    require(b.schema is sh, "builder-schema")
    if r.randrange(4) == 0:
        sh.release()
    x = tree(t)
    kept = []
    for batch in range(r.choice([1, 1, 2, 3])):
        rows = gen_rows(x, r)
        node = layout(x, rows, r, plain=True)
        want = [bits(x, v) for v in rows]
        parts = plain_buffers(t, node)
        objs = []
        order = list(range(len(parts)))
        r.shuffle(order)
        for k in order:
            kind, data = parts[k]
            if data is None:
                continue
            if len(data) == 0 and r.randrange(2):
                continue
            if r.randrange(6) == 0 and len(data) > 1:
                # replaced below: must be let go of at once
                junk, _ = buffer_object(data, kind, r)
                rc = sys.getrefcount(junk)
                set_buffer(b, k, kind, junk)
                o, what = buffer_object(data, kind, r)
                set_buffer(b, k, kind, o)
                require(sys.getrefcount(junk) == rc, "replaced-buffer-kept", what)
                if isinstance(junk, bytearray):
                    junk.append(1)  # BufferError if it were still in use
                del junk
                count("replaced")
            else:
                o, what = buffer_object(data, kind, r)
                rc = sys.getrefcount(o)
                set_buffer(b, k, kind, o)
            if r.randrange(8) == 0:
                rc = sys.getrefcount(o) if len(data) > 1 else 0
                e = raises(lambda: set_buffer(b, r.choice([-1, len(parts), 99, -2**40, 2**40]), kind, o), lib.GeoArrowCException)
                e = None
                require(not rc or sys.getrefcount(o) == rc, "refused-buffer-kept", what)
                count("bad_index")
            if r.randrange(8) == 0 and len(data) >= 32:
                arr = np.frombuffer(data, {"u": np.uint8, "i": np.int32, "d": np.float64}[kind])[::2]
                try:
                    set_buffer(b, k, kind, arr)
                except Exception:
                    count("strided")
                else:
                    raise Bad("strided-accepted", "values of a strided buffer cannot be taken over")
            if r.randrange(8) == 0:
                raises(lambda: set_buffer(b, k, kind, r.choice([None, 1, "abc", [1, 2], object(), np.zeros((2, 2)), np.zeros(2, np.float32), np.zeros(2, ">f8")])))
                count("bad_buffer")
            if r.randrange(2) and what in ("bytearray", "array"):
                # what the builder refers to cannot be moved elsewhere
                try:
                    o.extend(o[:1] * 5000)
                except BufferError:
                    count("resize_refused")
                except ValueError:
                    pass
            try:
                # an empty buffer is given back when finishing
                ref = None if what == "cast" or not data else weakref.ref(o)
            except TypeError:
                ref = None
            if r.randrange(2):
                objs.append((None, ref, what))
            else:
                objs.append((o, ref, what))
            count("owned")
            o = arr = None
        if r.randrange(8) == 0:
            break  # abandoned
        h = b.finish()
        gc.collect()
        s = CArray.from_address(h._addr())
        require(h.is_valid() and s.length == len(rows) and s.offset == 0, "builder-length", lambda: "%d of %d" % (s.length, len(rows)))
        require(s.null_count == -1 or s.null_count == sum(v is None for v in rows), "builder-nulls", s.null_count)
        require(decode(s, x) == want, "builder-content", lambda: "type %d" % t)
        kept.append((h, want, objs))
        count("built")
        distinct("builder", t, want)
        h = s = objs = None
        for h, w, _ in kept:
            require(decode(CArray.from_address(h._addr()), x) == w, "builder-content-later", lambda: "type %d" % t)
        h = None
    del b
    gc.collect()
    r.shuffle(kept)
    while kept:
        h, w, objs = kept.pop()
        require(decode(CArray.from_address(h._addr()), x) == w, "builder-content-later", lambda: "type %d" % t)
        for o, ref, what in objs:
            require(ref is None or ref() is not None, "buffer-dropped-early", what)
        o = ref = None
        how = r.choice(["del", "release", "foreign", "thread", "pyarrow"])
        if how == "release":
            h.release()
        elif how in ("foreign", "thread"):
            release_without_gil(h, how)
            require(not h.is_valid(), "released-still-valid")
            count("released_elsewhere")
        elif how == "pyarrow":
            st = lib.SchemaHolder()
            sn = schema_node(t)
            export_schema((sn[0], sn[1], None, sn[3], sn[4]), st._addr())
            arr = pa.Array._import_from_c(h._addr(), st._addr())
            require(len(arr) == len(w), "builder-length")
            del arr
        del h
        gc.collect()
        for o, ref, what in objs:
            if o is None:
                require(ref is None or ref() is None, "buffer-never-dropped", how + " " + what)
            elif isinstance(o, bytearray):
                o.append(1)  # no longer in use
        o = ref = objs = None


KERNELS = ["void", "void_agg", "visit_void_agg", "format_wkt", "as_geoarrow", "unique_geometry_types_agg", "box", "box_agg"]


class CKern(Structure):
    _fields_ = [("start", c_void_p), ("push_batch", c_void_p), ("finish", c_void_p), ("release", c_void_p), ("private_data", c_void_p)]


START = CFUNCTYPE(c_int, POINTER(CKern), POINTER(CSchema), c_char_p, POINTER(CSchema), c_char_p)
PUSH = CFUNCTYPE(c_int, POINTER(CKern), POINTER(CArray), POINTER(CArray), c_char_p)
FINISH = CFUNCTYPE(c_int, POINTER(CKern), POINTER(CArray), c_char_p)
RELK = CFUNCTYPE(None, POINTER(CKern))
k_init = dll.GeoArrowPythonPkgGeoArrowKernelInit
k_init.argtypes = [POINTER(CKern), c_char_p, c_char_p]


class RefKernel:
    """The C interface, called directly"""

    def __init__(self, name):
        self.k = CKern()
        self.err = ctypes.create_string_buffer(1024)
        require(k_init(byref(self.k), name, None) == 0, "ref-kernel")

    def start(self, schema, options):
        self.out = CSchema()
        self.err.value = b""
        return START(self.k.start)(byref(self.k), byref(schema), options, byref(self.out), self.err)

    def push(self, arr, out):
        self.err.value = b""
        return PUSH(self.k.push_batch)(byref(self.k), byref(arr), byref(out) if out is not None else None, self.err)

    def finish(self, out):
        self.err.value = b""
        return FINISH(self.k.finish)(byref(self.k), byref(out) if out is not None else None, self.err)

    def close(self):
        if self.k.release:
            RELK(self.k.release)(byref(self.k))


def out_tree(name, opt_type):
    if name == "as_geoarrow":
        return tree(opt_type)
    return {"void": ("null",), "void_agg": ("null",), "visit_void_agg": ("null",), "format_wkt": ("bin", 4, 1),
            "unique_geometry_types_agg": ("i32",), "box": ("struct", 4), "box_agg": ("struct", 4)}[name]


def agree(f, code, ref, key):
    """f must raise a GeoArrowCException with that code and text iff code != 0; returns its value"""
    try:
        v = f()
    except lib.GeoArrowCException as e:
        require(e.code == code, key + "-code", lambda: "%r, C gives %d %r" % (e, code, ref.err.value))
        require(e.message == ref.err.value.decode(), key + "-message", lambda: "%r != %r" % (e.message, ref.err.value))
        require(str(e.what) in str(e) and str(code) in str(e) and e.message in str(e), key + "-text", lambda: "%r does not say %r, %d and %r" % (str(e), e.what, code, e.message))
        count("kernel_errors")
        return None
    require(code == 0, key + "-no-error", lambda: "C gives %d %r" % (code, ref.err.value))
    return v


def sc_kernels(r):
    name = r.choice(KERNELS)
    agg = name.endswith("_agg")
    t = r.choice([k for k in ALL if k not in (WKBV, WKTV)])
    x = tree(t)
    opt_type = None
    options = b""
    if name == "as_geoarrow":
        opt_type = r.choice([k for k in ALL if COMP[k][0] != 990 and k not in (LWKB, LWKT, WKBV, WKTV)])
        if t not in SERIAL and r.randrange(2):
            g, d, c = COMP[t]
            opt_type = type_id(g, d, r.choice([1, 2])) if g != 990 else WKB
        options = pack_metadata([(b"type", str(opt_type).encode())])
        if r.randrange(10) == 0:
            options = r.choice([b"", pack_metadata([]), pack_metadata([(b"type", b"99")])])
    elif name == "format_wkt" and r.randrange(2):
        options = pack_metadata(r.sample([(b"precision", str(r.randrange(17)).encode()), (b"max_element_size_bytes", str(r.randrange(60)).encode())], r.randrange(3)))
    elif r.randrange(2):
        options = pack_metadata([])
    if options and r.randrange(3) == 0:
        # keys no kernel knows, keys and values without a byte
        known = [(b"type", str(opt_type).encode())] if name == "as_geoarrow" else [(b"precision", b"3")] if name == "format_wkt" and r.randrange(2) else []
        more = [(r.choice([b"", b"x", b"types", b"precisio"]), r.choice([b"", b"1", b"\0", b"long " * 9])) for _ in range(r.randrange(1, 4))]
        if not any(q[0] in (b"type", b"precision") for q in more):
            options = pack_metadata(r.sample(known + more, len(known + more)))
            count("other_options")
    K, ref = lib.CKernel(name.encode()), RefKernel(name.encode())
    try:
        kv = [(b"k", b"v")] if r.randrange(3) == 0 else []
        sh = lib.SchemaHolder()
        sn = schema_node(t, kv) if r.randrange(20) else ("i", "", None, 2, [])
        export_schema(sn, sh._addr())
        rs, cs = export_schema(sn)
        rc = ref.start(cs, options if options else None)
        out = agree(lambda: K.start(sh, options if r.randrange(4) else bytearray(options)), rc, ref, "start")
        RS(byref(cs))
        require(sh.is_valid(), "schema-consumed")
        if r.randrange(2):
            sh.release()
        if rc:
            raises(lambda: K.push_batch(holder_array(layout(x, [], r))[0]))
            raises(K.finish_agg if agg else K.finish)
            return
        require(out.is_valid() and read_schema(CSchema.from_address(out._addr())) == read_schema(ref.out), "kernel-schema", name)
        REL_S(ref.out.release)(byref(ref.out))
        y = out_tree(name, opt_type)
        outs = []
        for batch in range(r.choice([0, 1, 1, 2, 3])):
            rows = gen_rows(x, r)
            if x[0] == "bin" and rows and r.randrange(8) == 0:
                rows[r.randrange(len(rows))] = bytes(r.randrange(256) for _ in range(r.randrange(12))) if not x[2] else b"POINT (1"
            node = layout(x, rows, r)
            h, rec = holder_array(node)
            rr, ca = export_array(node)
            co = None if agg else CArray()
            rc = ref.push(ca, co)
            v = agree(lambda: (K.push_batch_agg if agg else K.push_batch)(h), rc, ref, "push")
            require(not rec.released and h.is_valid(), "input-released")
            RA(byref(ca))
            del h
            gc.collect()
            require(rec.released == 1, "release-count")
            if rc:
                return
            if agg:
                require(v is None, "agg-push-result")
                raises(lambda: K.push_batch(holder_array(node)[0])) if r.randrange(8) == 0 and "void" == name[:4] else None
            else:
                s = CArray.from_address(v._addr())
                require(v.is_valid() and s.length == co.length and s.null_count == co.null_count and s.n_buffers == co.n_buffers, "kernel-array", name)
                want = decode(co, y)
                require(decode(s, y) == want, "kernel-result", name)
                REL_A(co.release)(byref(co))
                outs.append((v, want))
            count("pushed")
            distinct("kernel", name, t, opt_type, [bits(x, q) for q in rows])
        for v, want in outs:
            require(decode(CArray.from_address(v._addr()), y) == want, "kernel-result-later", name)
        if agg:
            co = CArray()
            rc = ref.finish(co)
            v = agree(K.finish_agg, rc, ref, "finish")
            if not rc:
                require(decode(CArray.from_address(v._addr()), y) == decode(co, y), "kernel-aggregate", name)
                REL_A(co.release)(byref(co))
            count("aggregates")
        else:
            rc = ref.finish(None)
            require(agree(K.finish, rc, ref, "finish") is None, "finish-result")
            raises(K.finish_agg, lib.GeoArrowCException, ValueError)
            raises(lambda: K.push_batch_agg(holder_array(layout(x, [], r))[0]), lib.GeoArrowCException, ValueError)
        del K
        gc.collect()
        for v, want in outs:
            require(decode(CArray.from_address(v._addr()), y) == want, "kernel-result-later", name)
        count("kernels")
        sample("kernel %s on type %d" % (name, t))
    finally:
        ref.close()


def sc_hostile(r):
    """Any call with anything: a result or an ordinary exception"""
    tid = r.choice([2, 10003, WKB, 1, 990])
    x = tree(tid)

    def schema():
        k = r.randrange(5)
        h = lib.SchemaHolder()
        if k == 0:
            return h
        if k == 1:
            export_schema(("i", "", None, 2, []), h._addr())
            return h
        h = holder_schema(tid, r)
        if k == 2:
            h.release()
        return h

    def arr():
        k = r.randrange(6)
        h = lib.ArrayHolder()
        if k == 0:
            return h
        if k == 1:
            export_array(Node(3, 0, 0, [None, struct.pack("3i", 1, 2, 3)], []), h._addr())
            return h
        if k == 2:
            export_array(Node(3, 0, 3, [], []), h._addr())
            return h
        h, _ = holder_array(layout(x, gen_rows(x, r), r))
        if k == 3:
            h.release()
        return h

    def num():
        return r.choice([None, 0, 1, 2, -1, 7, 99, 2**31, 2**40, -2**63, 2**70, 1.5, "1", b"1", lib.GeometryType.POINT])

    def byt():
        return r.choice([None, b"", b"\0", b"{}", b"{", b"abc\0def", b"\xff\xfe", bytearray(b"x"), "text", 5, pack_metadata([(b"type", b"2")]), b"\1\0\0\0",
                         pack_metadata([(b"type", b"2")])[:r.randrange(16)], struct.pack("iii", 1, -5, 3), struct.pack("i", -1), struct.pack("ii", 2**31 - 1, 2**31 - 1)])

    def buf():
        return r.choice([None, b"", b"\1", b"\xff" * 8, bytearray(16), np.zeros(0), np.zeros(3), np.arange(4, dtype=np.int32), np.zeros(0, np.int32),
                         np.zeros(6)[::2], np.zeros(6)[::-1], np.arange(9, dtype=np.int32)[::3], np.zeros((2, 2)), array.array("d", [1, 2]), memoryview(b"abc")[1:],
                         np.frombuffer(b"\0" * 9, np.uint8)[1:].view(np.float64), 3, "abc", np.zeros(2, ">i4"), memoryview(b"abc")[::2], np.array(1.0), np.zeros(2, "O")])
    T = lib.CGeometryDataType
    types = [T(), T.Make(2, 1, 1), T.Make(990, 1, 1)]
    objs = []

    def typ():
        return r.choice(types)

    def obj(cls, make):
        have = [o for o in objs if isinstance(o, cls)]
        if have and r.randrange(3):
            return r.choice(have)
        o = make()
        objs.append(o)
        return o

    def kern():
        return obj(lib.CKernel, lambda: lib.CKernel(r.choice([k.encode() for k in KERNELS])))

    def bld():
        return obj(lib.CBuilder, lambda: lib.CBuilder(schema()))

    def view():
        return obj(lib.CArrayView, lambda: lib.CArrayView(arr(), schema()))
    any_ = [schema, arr, num, byt, buf, typ]
    calls = [
        lambda: T.Make(num(), num(), num()), lambda: T.Make(num(), num(), num(), byt()), lambda: T.FromExtension(r.choice(any_)()), lambda: T.FromExtension(schema()),
        lambda: T.FromStorage(schema(), byt(), byt()), lambda: T.FromStorage(None, byt(), byt()), lambda: typ().with_dimensions(num()), lambda: typ().with_geometry_type(num()),
        lambda: typ().with_coord_type(num()), lambda: typ().with_edge_type(num()), lambda: typ().with_crs(byt(), num()), lambda: repr(typ()), lambda: typ() == typ(),
        lambda: typ().to_schema(), lambda: typ().to_storage_schema(), lambda: [getattr(typ(), k) for k in ("id", "dimensions", "crs", "edge_type", "crs_type", "extension_metadata")],
        lambda: lib.CKernel(byt()), lambda: lib.CKernel(), lambda: kern().start(schema(), byt()), lambda: kern().start(r.choice(any_)(), byt()), lambda: kern().start(schema(), b""),
        lambda: kern().start(schema(), pack_metadata([(b"type", b"2")])),
        lambda: kern().push_batch(arr()), lambda: kern().push_batch(r.choice(any_)()), lambda: kern().push_batch_agg(arr()), lambda: kern().push_batch_agg(None),
        lambda: kern().finish(), lambda: kern().finish_agg(), lambda: lib.CArrayView(arr(), schema()), lambda: lib.CArrayView(r.choice(any_)(), r.choice(any_)()),
        lambda: view().buffers(), lambda: [memoryview(q).nbytes for q in view().buffers()[1:]], lambda: lib.CBuilder(r.choice(any_)()), lambda: bld().set_buffer_uint8(num(), buf()),
        lambda: bld().set_buffer_int32(num(), buf()), lambda: bld().set_buffer_double(num(), buf()), lambda: bld().set_buffer_double(r.randrange(5), buf()),
        lambda: bld().set_buffer_int32(r.randrange(4), buf()), lambda: bld().set_buffer_uint8(r.randrange(4), buf()), lambda: bld().finish(), lambda: bld().schema,
        lambda: bld().finish(), lambda: gc.collect(), lambda: objs.pop(r.randrange(len(objs))) if objs else None, lambda: lib.SchemaHolder().release(), lambda: lib.ArrayHolder().release(),
        lambda: L.Error().raise_message(byt(), num()),
    ]
    done = []
    for _ in range(r.randrange(4, 25)):
        k = r.randrange(len(calls))
        crumb("hostile %r then %d" % (done, k))
        done.append(k)
        try:
            v = calls[k]()
            if isinstance(v, T):
                types.append(v)
            v = None
        except SystemError as e:
            raise Bad("system-error", "call %d: %r" % (k, e))
        except Exception as e:
            count("exceptions")
            e = None
        count("calls")
    distinct("hostile", tid, done)


SCEN = [("types", sc_types, 4), ("holders", sc_holders, 2), ("views", sc_views, 5), ("builder", sc_builder, 5), ("kernels", sc_kernels, 5), ("hostile", sc_hostile, 4)]
PICK = [s for s in SCEN for _ in range(s[2])]


# --------------------------------------------------------------------- main
def crumb(text):
    b = text.encode("latin1", "replace")[:3000]
    if CR:
        CR[16:16 + len(b) + 1] = b + b"\0"


def run_case(idx, seed):
    del ERRORS[:]
    r = random.Random("%d:%d" % (seed, idx))
    name, f, _ = PICK[idx % len(PICK)]
    crumb(name)
    before = set(Rec.live)

    def once(state):
        r.setstate(state)
        f(r)
        gc.collect()
        require(not ERRORS, "release-callback", lambda: ERRORS[0])
        left = [k for k in Rec.live if k not in before]
        require(not left, "never-released", "%d exported structures of scenario %s" % (len(left), name))
    st = r.getstate()
    once(st)
    if (idx // len(PICK)) % 12 == 0:
        # the same again and again must not need more and more memory
        once(st)
        once(st)
        # threads that end and caches that fill up may do so at any time: what is lost is
        # lost again in each of many repetitions
        grow = 1
        for reps in (4, 12, 30):
            sizes = array.array("Q", [0] * reps)
            for k in range(reps):
                once(st)
                if reps > 4:
                    time.sleep(0.002)
                sizes[k] = heap()
            grow = min(q - p for p, q in zip(sizes, sizes[1:]))
            if grow <= 0:
                break
            count("repeated")
        require(grow <= 0, "leak:" + name, lambda: "each repetition keeps %d bytes" % grow)
        count("leak_checks")


CR = None


def main():
    global CR
    seed, cases = int(ARG["seed"]), int(ARG["cases"])
    fails, done = [], 0
    if "only" in ARG:
        todo = [int(ARG["only"])]
    else:
        todo = range(int(ARG["shard"]), cases, int(ARG["nshards"]))
        todo = [k for k in todo if k >= int(ARG.get("from", 0))]
    if "crumb" in ARG:
        with open(ARG["crumb"], "wb") as f:
            f.write(b"\0" * 4096)
        fd = os.open(ARG["crumb"], os.O_RDWR)
        CR = mmap.mmap(fd, 4096)
    known = set(k for k in ARG.get("known", "").split(",") if k)
    gc.collect()
    gc.freeze()  # what exists now need not be looked at by every collection
    wall = 4 * int(ARG.get("cpu", 20))
    for idx in todo:
        if CR:
            CR[0:16] = struct.pack("<QQ", idx, 1)
        faulthandler.dump_traceback_later(wall, exit=True)
        try:
            run_case(idx, seed)
        except Bad as e:
            fails.append(dict(case=idx, key=e.key, detail=e.text))
        except Exception as e:
            import traceback
            fails.append(dict(case=idx, key="unexpected:%s" % type(e).__name__, detail=traceback.format_exc()[-1500:]))
        faulthandler.cancel_dump_traceback_later()
        done += 1
        if CR:
            CR[8:16] = struct.pack("<Q", 0)
        if len([f for f in fails if f["key"] not in known]) > 20:
            break
    if "only" in ARG:
        for f in fails:
            sys.stderr.write("FAIL key=%s: %s\n" % (f["key"], f["detail"]))
        sys.stdout.flush()
        os._exit(1 if fails else 0)
    with open(ARG["out"], "w") as f:
        json.dump(dict(done=done, fails=fails, counts=COUNT, samples=SAMPLES), f)
    with open(ARG["out"] + ".distinct", "wb") as f:
        f.write(struct.pack("<%dQ" % len(DISTINCT), *DISTINCT))
    os._exit(0)


main()
