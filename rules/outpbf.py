"""What the PBF writer's calls to protobuf setters mean: provenance of their arguments.  Shared by C05 and C06."""
from fractions import Fraction
from ir import translate, strip_templates
from terms import Terms, nocast, show
from rules.common import KEEP_OSM

KEEP = KEEP_OSM + [r"^Osmium::StringTable::(record_string|map_string_id|store_stringtable|clear)\(", r"^Osmium::OSMFile::has_multiple_object_versions\("]
ROUND = ("llvm.round.f64", "llvm.rint.f64", "llvm.nearbyint.f64", "llvm.roundeven.f64", "round", "rint", "nearbyint", "std::round", "std::rint",
         "llvm.lround.i64.f64", "llvm.llround.i64.f64", "lround", "llround", "std::lround", "std::llround", "llvm.lrint.i64.f64", "llvm.llrint.i64.f64", "lrint", "llrint")
CHOP = ("llvm.floor.f64", "llvm.ceil.f64", "llvm.trunc.f64", "floor", "ceil", "trunc")
OUTER = ("PBF", "fd")


def modules(ctx):
    m = getattr(ctx, "_outpbf", None)
    if m is None:
        m = ctx._outpbf = translate("output_pbf.cpp", keep=KEEP)
    return m


def setter(m, i):
    """('Info', 'set', 'uid') for a call of a protobuf setter"""
    n = m.short(i)
    if not n or not n.startswith("OSMPBF::"):
        return None
    p = n.split("::")
    for k in ("set_", "add_"):
        if len(p) == 3 and p[2].startswith(k):
            return p[1], k[:3], p[2][4:]
    return None


def bits(ty):
    return int(ty[1:]) if ty[0] == "i" and ty[1:].isdigit() else None


class Mono:
    """coefficient * atoms / atoms, and how it was rounded"""
    def __init__(self, c=1, num=(), den=()):
        self.c, self.num, self.den, self.lossy, self.chop, self.round = Fraction(c), list(num), list(den), None, None, False

    def __repr__(self):
        r = " ".join([str(self.c)] + [show(x) for x in self.num])
        return r + ("".join(" / " + show(x) for x in self.den))


def mono(t):
    """monomial of an arithmetic term, or None"""
    k = t[0]
    if k == "c" or k == "f":
        return Mono(Fraction(t[1]))
    if k == "cast":
        r = mono(t[4])
        if r is None:
            return None
        if t[1] in ("fptosi", "fptoui") and not r.round and (r.den or r.c.denominator != 1 or "?" in repr(r) or fp_source(t[4])):
            r.chop = r.chop or "truncation"
        return r
    if k == "call" and t[1] in ROUND:
        r = mono(t[2][0])
        if r:
            r.round = True
        return r
    if k == "call" and t[1] in CHOP:
        a = nocast(t[2][0])
        if a[0] == "op" and a[1] == "fadd" and ("f", 0.5) in (a[2], a[3]) and t[1].endswith("floor") or "floor" in t[1] and a[0] == "op" and a[1] == "fadd" and ("f", 0.5) in (a[2], a[3]):
            r = mono(a[2] if a[3] == ("f", 0.5) else a[3])
            if r:
                r.round = True
            return r
        r = mono(t[2][0])
        if r:
            r.chop = t[1]
        return r
    if k == "op" and t[1] in ("mul", "fmul", "sdiv", "udiv", "fdiv"):
        a, b = mono(t[2]), mono(t[3])
        if a is None or b is None:
            return None
        r = Mono()
        r.lossy, r.chop, r.round = a.lossy or b.lossy, a.chop or b.chop, a.round or b.round
        if t[1] in ("mul", "fmul"):
            r.c, r.num, r.den = a.c * b.c, a.num + b.num, a.den + b.den
            if (a.den and t[1] == "mul" and a.round is False) or (b.den and t[1] == "mul" and b.round is False):
                r.lossy = "the quotient is cut to an integer before it is multiplied"
        else:
            if b.c == 0:
                return None
            r.c, r.num, r.den = a.c / b.c, a.num + b.den, a.den + b.num
            if t[1] in ("sdiv", "udiv"):
                r.intdiv = True
        return r
    if k == "op" and t[1] in ("add", "sub", "fadd", "fsub"):
        return None
    return Mono(1, [t])


def fp_source(t):
    """is the value a floating point computation (not just a converted integer)?"""
    t0 = t
    while t0[0] == "cast":
        if t0[1] in ("sitofp", "uitofp"):
            return False
        t0 = t0[4]
    return t0[0] in ("op", "call", "load", "f")


def getter(t):
    """last component of the getter called, or None"""
    t = nocast(t)
    if t[0] == "call" and t[1] and t[1].startswith("Osmium::OSM::"):
        return t[1].split("::")[-2] + "::" + t[1].split("::")[-1]
    return None


GET = {"Object::id": "id", "Object::version": "version", "Object::changeset": "changeset", "Object::timestamp": "timestamp", "Object::uid": "uid",
       "Object::user": "user", "Object::visible": "visible", "Node::lon": "lon", "Node::lat": "lat", "Position::lon": "lon", "Position::lat": "lat",
       "Tag::key": "key", "Tag::value": "value", "WayNode::ref": "noderef", "Way::get_node_id": "noderef", "RelationMember::ref": "memref",
       "RelationMember::role": "role", "RelationMember::type": "type", "Object::endtime": "endtime"}

# field -> (source, transformation, delta coded, needed bits)
COMMON = {"id": ("id", None, False, 64), "keys": ("key", "str", False, 32), "vals": ("value", "str", False, 32)}
INFO = {"version": ("version", None, False, 32), "timestamp": ("timestamp", "time", False, 64), "changeset": ("changeset", None, False, 32),
        "uid": ("uid", None, False, 32), "user_sid": ("user", "str", False, 32), "visible": ("visible", None, False, 1)}
FIELDS = {"Node": dict(COMMON, lon=("lon", "deg", False, 64), lat=("lat", "deg", False, 64)),
          "Way": dict(COMMON, refs=("noderef", None, "local", 64)),
          "Relation": dict(COMMON, roles_sid=("role", "str", False, 32), memids=("memref", None, "local", 64), types=("type", "code", False, 8)),
          "Info": INFO,
          "DenseNodes": {"id": ("id", None, "block", 64), "lon": ("lon", "deg", "block", 64), "lat": ("lat", "deg", "block", 64), "keys_vals": (("key", "value"), "str", False, 32)},
          "DenseInfo": {"version": ("version", None, False, 32), "timestamp": ("timestamp", "time", "block", 64), "changeset": ("changeset", None, "block", 32),
                        "uid": ("uid", None, "block", 32), "user_sid": ("user", "str", False, 32), "visible": ("visible", None, False, 1)}}


class Args:
    """classifies the arguments of the setters called in one function"""
    def __init__(self, m, fn):
        self.m, self.fn, self.T = m, fn, Terms(m, fn)
        self.strs = {}      # alloca of a std::string -> source term
        for i in fn.calls():
            n = (m.short(i) or "").split("::")
            if n[-1] in ("basic_string", "assign", "operator=") and "basic_string" in n[-2:] and len(i.args) >= 2:
                self.strs.setdefault(self.T.t(i.args[0]), []).append(self.T.t(i.args[1]))

    def text(self, t):
        """the getter behind a string argument"""
        t = nocast(t)
        for _ in range(4):
            if t in self.strs:
                if len(self.strs[t]) != 1:
                    return None
                t = nocast(self.strs[t][0])
                continue
            if t[0] == "call" and t[1] and t[1].split("::")[-1] in ("c_str", "data") and "basic_string" in t[1]:
                t = nocast(t[2][0])
                continue
            break
        if t[0] == "str":
            return ("str", t[1])
        return GET.get(getter(t))

    def source(self, t):
        """(source, transformation, term) of a value, or None if unknown"""
        t = nocast(t) if t[0] != "cast" or t[1] not in ("fptosi", "fptoui") else t
        if t[0] == "c":
            return ("const", t[1], t)
        if t[0] == "call" and t[1] and t[1].endswith("StringTable::record_string"):
            s = self.text(t[2][1])
            return (s, "str", t) if s else None
        if t[0] == "call" and t[1] and t[1].endswith("StringTable::map_string_id"):
            return ("map", "map", t)
        g = GET.get(getter(t))
        if g:
            return (g, None, t)
        mm = mono(t)
        if mm is None:
            return None
        gs = [x for x in mm.num if GET.get(getter(x))]
        if len(gs) == 1 and all(x in gs or cell_of(x) for x in mm.num) and all(cell_of(x) for x in mm.den):
            return (GET[getter(gs[0])], "mono", mm)
        return None

    def split(self, t):
        """a - b -> (a, b)"""
        n = nocast(t, keep=("fptosi", "fptoui"))
        if n[0] == "op" and n[1] == "sub":
            return n[2], n[3]
        return None


def cell_of(t):
    t = nocast(t)
    if t[0] == "load":
        return t[1]
    return None


def narrowest(t):
    """smallest integer width a value passes through (chain of casts only)"""
    w = None
    while t[0] == "cast":
        for ty in (t[2], t[3]):
            b = bits(ty)
            if b is not None and (w is None or b < w):
                w = b
        t = t[4]
    return w


def trunc_to(t):
    w = None
    while t[0] == "cast":
        if t[1] in ("trunc", "fptosi", "fptoui"):
            b = bits(t[3])
            if b is not None and (w is None or b < w):
                w = b
        t = t[4]
    return w
