"""The functions that write geometries are interpreted abstractly with ways of representative lengths: what reaches the
stream or the other library is a sequence of constants and terms over the positions of the way, which is compared with what
each format requires. Characters computed from bytes are tabulated over all byte values. Nothing is executed."""
import re
from absint import I
from seqs import Seqs, data
from strings import S, params
from scenario import obj
from orders import Orders, Unknown, sgn
from ir import strip_templates
from rules.lists import *
from rules.handlers import site

OUT = obj("=out")
FLOATS = ("sitofp", "uitofp", "fadd", "fsub", "fmul", "fdiv", "fneg", "fptosi", "fptoui", "fpext", "fptrunc")
HEX = "0123456789ABCDEF"


class Enough(Exception):
    pass


class Tab(Orders):
    pass


class Stream(Seqs):
    def __init__(self, m):
        Seqs.__init__(self, m)
        self.csize = {}
        self.calls = []

    # ---- terms --------------------------------------------------------
    def isterm(self, v):
        return v[0] == "s" and isinstance(v[1], tuple) and v[1][0] in ("term", "fp", "in")

    def isbyte(self, v):
        if v[0] != "s" or not isinstance(v[1], tuple):
            return False
        k = v[1]
        if k[0] == "f" and isinstance(k[1], tuple) and k[1][0] == "byte":
            return True
        if k[0] in ("op",):
            return any(self.isbyte(x) for x in k[3:5])
        if k[0] == "cast":
            return self.isbyte(k[4])
        return False

    def arith(self, ai, st, inst, op, a, b):
        if op in FLOATS and all(x is None or x[0] == "i" or self.isterm(x) for x in (a, b)):
            return ("s", ("term", op, a) if b is None else ("term", op, a, b))
        if self.isbyte(a) or b is not None and self.isbyte(b):
            w = self.bits(inst)
            if w is None:
                return None
            return ("s", ("cast", op, self.bits(inst, "from"), w, a)) if b is None else ("s", ("op", op, w, a, b))
        if op == "sub" and "p" in (a[0], b[0]):
            x, y = ai.addr(a), ai.addr(b)
            if x and y and x[0] == y[0] and isinstance(x[1], int) and isinstance(y[1], int):
                return I(x[1] - y[1])
        return Seqs.arith(self, ai, st, inst, op, a, b)

    def real(self, v):
        """the number a term stands for, or None"""
        if v[0] == "i":
            return v[1]
        if v[0] != "s" or not isinstance(v[1], tuple):
            return None
        k = v[1]
        try:
            if k[0] == "fp":
                return float(k[1])
            if k[0] == "term":
                a = [self.real(x) for x in k[2:]]
                if None in a:
                    return None
                return {"sitofp": float, "uitofp": float, "fpext": float, "fneg": lambda x: -x, "fadd": lambda x, y: x + y, "fsub": lambda x, y: x - y,
                        "fmul": lambda x, y: x * y, "fdiv": lambda x, y: x / y}[k[1]](*a)
        except (KeyError, ValueError, ZeroDivisionError, TypeError):
            pass
        return None

    def order(self, ai, st, pred, a, b):
        if a[0] in "si" and b[0] in "si" and (self.isterm(a) or self.isterm(b)):
            x, y = self.real(a), self.real(b)
            if x is not None and y is not None:
                return {"oeq": x == y, "ueq": x == y, "one": x != y, "une": x != y, "olt": x < y, "ult": x < y, "ogt": x > y, "ugt": x > y, "ole": x <= y, "ule": x <= y,
                        "oge": x >= y, "uge": x >= y, "ord": True, "uno": False}.get(pred)
        return Seqs.order(self, ai, st, pred, a, b)

    def byte_of(self, v):
        """the byte symbol an expression is computed from"""
        k = v[1]
        if k[0] == "f":
            return k[1]
        for x in k[3:] if k[0] == "op" else k[4:]:
            if isinstance(x, tuple) and len(x) == 2 and self.isbyte(x):
                return self.byte_of(x)

    def table(self, v):
        """values of an expression for each value of its byte, or None"""
        n, t = self.byte_of(v), []
        for x in range(256):
            try:
                t.append(Tab(self.m, {n: x}).value(v))
            except Unknown:
                return None
        return t

    def index(self, ai, st, inst, base, off, var):
        if len(var) == 1 and var[0][1] == 1 and base[0] == "p" and base[1][0] == "glob":
            x = ai.val(st, var[0][0])
            if x[0] == "s" and self.isbyte(x):
                t = self.table(x)
                if t is not None:
                    cs = [ai.gload(base[1][1], base[2] + off + k, 1) for k in t]
                    return ("p", ("s", ("arg", ("chars", self.byte_of(x), tuple(None if c is None else chr(c[1] & 255) for c in cs)))), 0)
        return None

    def access(self, ai, st, inst, ptr, size, write):
        if write:
            a = ai.addr(ptr)
            if a:
                self.csize[a] = size
        Seqs.access(self, ai, st, inst, ptr, size, write)

    def bytes_at(self, st, a, n):
        """n bytes of memory as a list of byte values or ('byte', term, k); None where unknown"""
        out = []
        while len(out) < n:
            p = (a[0], a[1] + len(out))
            v = st.mem.get(p)
            w = self.csize.get(p, n - len(out))
            if v is None:
                if a[0][0] == "glob":
                    g = self.m.globals.get(a[0][1], {})
                    b = bytes.fromhex(g["init"]["strhex"]) if g.get("const") and "strhex" in g.get("init", {}) else None
                    out.append(b[p[1]] if b and p[1] < len(b) else None)
                    continue
                out.append(None)
                continue
            if v[0] == "i":
                out += [(v[1] >> 8 * k) & 255 for k in range(w)]
            elif self.isterm(v):
                out += [("byte", v, k) for k in range(w)]
            elif self.isbyte(v) or v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "chars":
                out.append(v)
            else:
                out += [None] * w
        return out[:n]

    def loaded(self, ai, st, a, val, size):
        if a[0][0] == "s" and isinstance(a[0][1], tuple) and a[0][1][0] == "arg" and isinstance(a[0][1][1], tuple) and a[0][1][1][0] == "chars" and size == 1:
            return ("s", a[0][1][1])
        if size == 1 and isinstance(a[1], int):
            for k in range(8):
                p = (a[0], a[1] - k)
                v = st.mem.get(p)
                if v is not None:
                    w = self.csize.get(p, 0)
                    if w > k and self.isterm(v):
                        return ("s", ("f", ("byte", v, k), 8))
                    if w > k and v[0] == "i" and w > 1:
                        return I(sgn(v[1] >> 8 * k, 8))
                    break
        if size == 8 and val is not None and isinstance(a[1], int) and self.csize.get(a, 4) == 4:
            y = st.mem.get((a[0], a[1] + 4))
            if val[0] == "i" and y is not None and y[0] == "i":
                return I(sgn(val[1] & 0xffffffff | y[1] << 32, 64))
        return Seqs.loaded(self, ai, st, a, val, size)

    # ---- streams -------------------------------------------------------
    limit = None

    def put_ev(self, st, *e):
        if self.limit is not None and len(st.auto or ()) >= self.limit:
            raise Enough(st.auto)
        return self.event(st, e)[0][2]

    def precision(self, st):
        for e in reversed(st.auto or ()):
            if e[0] == "prec":
                return e[1]
        return 6

    def call(self, ai, st, inst, name, args):
        full = ai.m.callee(inst) or ""
        base = strip_templates(ai.m.base(inst) or "")
        if args and args[0] in (OUT, ("p", OUT, 0)) and full:
            par = strip_templates(params(full))
            last = base.split("::")[-1]
            if last.startswith("operator<<") or last == "put":
                a = args[1] if len(args) > 1 else None
                p = par.split(", ")[-1]
                if p in ("double", "float"):
                    return [("ret", OUT, self.put_ev(st, "d", a, self.precision(st)))]
                if p == "std::_Setprecision":
                    n = self.num(ai, st, a)
                    return [("ret", OUT, self.put_ev(st, "prec", n))]
                if p.endswith("char"):
                    if a[0] == "i":
                        return [("ret", OUT, self.put_ev(st, "t", chr(a[1] & 255)))]
                    if a[0] == "s" and isinstance(a[1], tuple) and a[1][0] == "chars":
                        return [("ret", OUT, self.put_ev(st, "h", a[1][1], a[1][2]))]
                if p.endswith("char const*") or "basic_string" in p:
                    t = self.text(ai, st, a)
                    if t is not None:
                        return [("ret", OUT, self.put_ev(st, "t", t))]
                if p in ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short"):
                    n = self.num(ai, st, a)
                    if n is not None:
                        return [("ret", OUT, self.put_ev(st, "t", str(n)))]
                if p == "std::ostream& (std::ostream&)" or a is not None and a[0] == "fn":
                    fnn = (ai.m.decls.get(a[1], {}) or {}).get("dem", "") if a and a[0] == "fn" else ""
                    if "fixed" in fnn:
                        return [("ret", OUT, self.put_ev(st, "fixed"))]
                    if "dec(" in fnn or "flush" in fnn:
                        return [("ret", OUT, st)]
                return [("ret", OUT, self.put_ev(st, "?", full[:80]))]
            if last == "write":
                n = self.num(ai, st, args[2])
                a = ai.addr(args[1])
                if n is not None and a is not None and isinstance(a[1], int):
                    return [("ret", OUT, self.put_ev(st, "w", tuple(self.bytes_at(st, a, n))))]
                t = self.text(ai, st, args[1])
                if n is not None and t is not None:
                    return [("ret", OUT, self.put_ev(st, "t", t[:n]))]
                return [("ret", OUT, self.put_ev(st, "?", "write"))]
            if last == "precision" and len(args) > 1:
                return [("ret", I(6), self.put_ev(st, "prec", self.num(ai, st, args[1])))]
            return [("ret", ai.sy(inst) if "ty" in inst.d else None, self.put_ev(st, "?", full[:80]))]
        b = base
        if b.endswith("std::setprecision") or b == "std::_Setprecision":
            return [("ret", args[-1], st)]
        if b.startswith("SHPCreateSimpleObject"):
            n = self.num(ai, st, args[1])
            xy = []
            for a in args[2:4]:
                p = ai.addr(a)
                xy.append(None if n is None or p is None or not 0 <= n < 50 else tuple(st.mem.get((p[0], p[1] + 8 * k)) for k in range(n)))
            return [("ret", ai.sy(inst), self.put_ev(st, "shp", self.num(ai, st, args[0]), n, xy[0], xy[1]))]
        cls, _, f = b.rpartition("::")
        if cls.startswith("OGR") or cls.startswith("geos::geom"):
            c = cls.split("::")[-1]
            if f == c:                           # constructor
                s = self.put_ev(st, "new", c, args[0], tuple(args[1:]))
                if c == "Coordinate":
                    a = ai.addr(args[0])
                    ai.clear(s, a[0], a[1], a[1] + 24)
                    if len(args) > 2:
                        s.mem[a], s.mem[(a[0], a[1] + 8)] = args[1], args[2]
                return [("ret", None, s)]
            if f in ("create",) and len(args) > 1:
                p = ai.addr(args[1])
                i = self.info(st, p) if p else None
                xy = None
                if i:
                    es = self.vecs[data(i[0])][1]
                    xy = tuple((st.mem.get((data(i[0]), k * es)), st.mem.get((data(i[0]), k * es + 8))) for k in range(i[1]))
                return [("ret", ai.sy(inst), self.put_ev(st, "seq", ai.sy(inst), xy))]
            if not f.startswith("~"):
                r = ai.sy(inst) if "ty" in inst.d else None
                return [("ret", r, self.put_ev(st, "call", f, args[0], tuple(args[1:]), r))]
        if name is None or "callee" in inst.d and "fn" not in (inst.d["callee"] or {}):
            # virtual call of the other libraries
            k = [x for x in ("create", "addPoint")]
            if len(args) > 1:
                p = ai.addr(args[1])
                i = self.info(st, p) if p else None
                if i:
                    es = self.vecs[data(i[0])][1]
                    xy = tuple((st.mem.get((data(i[0]), q * es)), st.mem.get((data(i[0]), q * es + 8))) for q in range(i[1]))
                    return [("ret", ai.sy(inst), self.put_ev(st, "seq", ai.sy(inst), xy))]
            r = ai.sy(inst) if "ty" in inst.d else None
            if inst.d["callee"] and ai.val(st, inst.d["callee"])[0] != "fn":
                return [("ret", r, self.put_ev(st, "call", "virtual", args[0] if args else None, tuple(args[1:]), r))]
        return Seqs.call(self, ai, st, inst, name, args)


class Undecided(Exception):
    pass


def norm(t):
    """WKT text without the blanks that mean nothing"""
    out = []
    for x in t:
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)
    r = []
    for x in out:
        if isinstance(x, str):
            x = re.sub(r"\s*([(),;])\s*", r"\1", x)
            if not x:
                continue
        r.append(x)
    return r


def show(seq, known):
    s = []
    for x in seq:
        s.append(x if isinstance(x, str) else "<%s>" % (known.get(x, "?"),) if not isinstance(x, int) else "%02x" % x)
    return "".join(s)[:160]


def wkt_tokens(ev, known):
    t, fixed, low = [], False, None
    for e in ev:
        if e[0] == "t":
            t.append(e[1])
        elif e[0] == "fixed":
            fixed = True
        elif e[0] == "prec":
            continue
        elif e[0] == "d":
            if e[1] not in known or e[2] is None:
                raise Undecided
            if e[2] < (7 if fixed else 10):
                low = e[2]
            t.append(e[1])
        else:
            raise Undecided
    return norm(t), low


def wkb_tokens(ev, known):
    t = []
    for e in ev:
        if e[0] == "w":
            for x in e[1]:
                if x is None:
                    raise Undecided
                if isinstance(x, tuple) and x[0] != "byte":
                    raise Undecided
                if isinstance(x, tuple) and x[1] not in known:
                    raise Undecided
                t.append(x)
        elif e[0] == "t":
            t += [ord(c) & 255 for c in e[1]]
        elif e[0] in ("prec", "fixed"):
            continue
        else:
            raise Undecided
    return t


def hex_tokens(ev, known):
    """the bytes whose hexadecimal digits are written, or ("nibble", …) for what is no such digit"""
    n = []
    for e in ev:
        if e[0] == "t":
            for c in e[1]:
                n.append(int(c, 16) if c in "0123456789ABCDEFabcdef" else ("bad", c))
        elif e[0] == "h":
            b, tab = e[1], e[2]
            if b[0] != "byte" or b[1] not in known or None in tab:
                raise Undecided
            up = [c.upper() for c in tab]
            if up == [HEX[x >> 4] for x in range(256)]:
                n.append((b, "high"))
            elif up == [HEX[x & 15] for x in range(256)]:
                n.append((b, "low"))
            else:
                n.append(("bad", b))
        elif e[0] in ("prec", "fixed"):
            continue
        else:
            raise Undecided
    t = []
    for k in range(0, len(n), 2):
        x = n[k:k + 2]
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], int):
            t.append(x[0] << 4 | x[1])
        elif len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], tuple) and x[0][1] == "high" and x[1] == (x[0][0], "low"):
            t.append(x[0][0])
        else:
            t.append(("nibble", tuple(x)))
    return t


def le(n, w=4):
    return [(n >> 8 * k) & 255 for k in range(w)]


def run(ctx):
    ctx.rules = ["WKT: keyword, SRID, coordinates and order of the geometry", "WKB: byte order, type code, SRID, counts, coordinates and order", "hex WKB: the digits of the bytes of WKB",
                 "OGR and shape objects: the same coordinates in the same order"]
    ctx.assumptions = ["ways of up to five nodes stand for all lengths: the writers step through the list", "host and reader agree on the format of a double; little-endian host",
                       "a stream starts with a precision of six digits and in decimal notation"]
    m = load()
    L = Lists(m)

    def calls(w, fn, args, mem, auto=()):
        try:
            r = run_fn(m, w, fn, args, mem, auto)
        except AnalysisBroken:
            return None
        return r
    # the terms of the longitude and latitude of a position
    lonlat = {}

    def ref(x, y):
        if (x, y) not in lonlat:
            p = obj("POS")
            o = []
            for fn in ("drv_lon", "drv_lat"):
                r = calls(Stream(m), fn, [p], {(p, L.x): I(x), (p, L.y): I(y)})
                if not r or len({v for _, v, _, _ in r}) != 1 or r[0][1] is None:
                    raise AnalysisBroken("the longitude of a position is not a term")
                o.append(r[0][1])
            lonlat[(x, y)] = o
        return lonlat[(x, y)]
    TYPES = {"point": (1, "POINT(", ")"), "line": (2, "LINESTRING(", ")"), "polygon": (3, "POLYGON((", "))")}

    def judge(kind, fmt, what, fn, ev, want, known, get):
        try:
            got = get(ev, known)
        except Undecided:
            ctx.count("undecided outputs")
            return False
        ctx.count("outputs compared")
        if fmt == "wkt":
            got, low = got
            ctx.require(low is None, "wkt:digits", "%s is written with only %s digits (%s)" % (what, low, site(m, fn)))
            want = norm(want)
            if [x for x in want if x == ""]:
                want = [x for x in want if x]
        ctx.require(got == want, "%s:%s" % (fmt, kind), "%s as %s is %s, expected %s (%s)" % (what, fmt.upper(), show(got, known) if fmt == "wkt" else cut(got, known, want), show(want, known) if fmt == "wkt" else "", site(m, fn)))
        return True

    def cut(got, known, want):
        k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
        name = lambda s: "nothing" if k >= len(s) else "byte %02x" % s[k] if isinstance(s[k], int) else "byte %d of %s" % (s[k][2], known.get(s[k][1])) if s[k][0] == "byte" else "no hexadecimal digits of a byte"
        return "%s at byte %d where %s is" % (name(got), k, name(want))
    A, B, C, D, Z, X = (111, 1003), (222, -2003), (-333, 3003), (444, 4003), (0, 0), (1800000000, -900000000)
    lines = [[], [A], [A, B], [A, B, C], [A, B, B, C], [A, B, A, C], [Z, A, Z], [X, Z, A, B, C, D]] + ([[A, B, C, D, A], [A, A], [A, A, B], [B, C, C]] if ctx.thorough else [])
    rings = [[A, B, A], [A, B, C, A], [A, B, B, A], [Z, X, A, Z]] + ([[A, B, C, D, A], [A]] if ctx.thorough else [])
    cases = [("line", "drv_line_list", LIST, 0, pts, rev) for pts in lines for rev in (0, 1)]
    cases += [("line", "drv_line_way", WAY, None, [A, B, C], rev) for rev in (0, 1)]
    cases += [("polygon", "drv_polygon_list", LIST, 0, pts, rev) for pts in rings for rev in (0, 1)]
    cases += [("polygon", "drv_polygon_way", WAY, None, [A, B, C, A], rev) for rev in (0, 1)]
    cases += [("point", "drv_point_pos", None, 0, [A], 0), ("point", "drv_point_pos", None, 0, [B], 0), ("point", "drv_point_pos", None, 0, [Z], 0), ("point", "drv_point_pos", None, 0, [X], 0)]
    for kind, new, base, at, pts, rev in cases:
        w = Stream(m)
        w.calls = []
        if kind == "point":
            base = obj("POS")
            mem = {(base, L.x): I(pts[0][0]), (base, L.y): I(pts[0][1])}
            args = [GEO, base, I(1)]
            what = "a point"
        else:
            at = L.wl if at is None else at
            refs = [1 + k for k in range(len(pts))]
            if kind == "polygon":
                refs[-1] = refs[0]
            mem = L.nodes(w, base, at, [(refs[k], x, y) for k, (x, y) in enumerate(pts)])
            args = [GEO, base, I(rev)]
            what = "a %s%s of %d nodes%s" % ("reversed " if rev else "", "line string" if kind == "line" else kind, len(pts), "" if len(set(pts[:-1])) == len(pts[:-1]) or kind == "line" and len(set(pts)) == len(pts) else " with equal positions")
        r = calls(w, new, args, mem)
        st = [e for how, v, k, e in r or () if how == "ret"]
        if len(st) != 1 or w.bad:
            ctx.count("undecided geometries")
            continue
        st = st[0]
        ctx.count("geometries")
        order = list(reversed(pts)) if rev else pts
        known = {}
        for p in pts:
            a, b = ref(*p)
            known[a], known[b] = "lon%d" % (pts.index(p)), "lat%d" % (pts.index(p))
        seq = [ref(*p) for p in order]
        code, head, tail = TYPES[kind]
        for srid in (0, 1):
            with_ = what + (" with SRID" if srid else " without SRID")
            want = ["SRID=4326;"] * srid + [head]
            for k, (a, b) in enumerate(seq):
                want += [","] * (k > 0) + [a, " ", b]
            want.append(tail)
            wb = [1] + le(code | (0x20000000 if srid else 0)) + (le(4326) if srid else [])
            wb += le(1) if kind == "polygon" else []
            wb += le(len(seq)) if kind != "point" else []
            for a, b in seq:
                wb += [("byte", a, k) for k in range(8)] + [("byte", b, k) for k in range(8)]
            for fmt, fn, get, exp in (("wkt", "drv_wkt", wkt_tokens, want), ("wkb", "drv_wkb", wkb_tokens, wb), ("hex", "drv_hex", hex_tokens, wb)):
                r = calls(w, fn, [OUT, GEO, I(srid)], st.mem)
                outs = [e for how, v, k, e in r or () if how == "ret"]
                if w.bad or len(outs) != 1 or len(r) != 1:
                    ctx.count("undecided outputs")
                    w.bad.clear()
                    continue
                judge(kind, fmt, with_, fn, outs[0].auto, exp, known, get)
        # OGR
        fn = "drv_ogr_" + kind
        r = calls(w, fn, [GEO], st.mem)
        outs = [(v, e) for how, v, k, e in r or () if how == "ret"]
        if len(outs) == 1 and len(r) == 1 and not w.bad:
            ogr(ctx, m, what, kind, fn, outs[0], seq, known)
        else:
            ctx.count("undecided outputs")
            w.bad.clear()
        # shapes
        if kind == "point" or len(set(pts)) >= 2:
            fn = "drv_shp_" + kind
            r = calls(w, fn, [GEO], st.mem)
            ev = [[x for x in e.auto if x[0] == "shp"] for how, v, k, e in r or () if how == "ret"]
            if len(ev) != 1 or len(r) != 1 or w.bad or len(ev[0]) != 1 or None in ev[0][0][1:3]:
                ctx.count("undecided outputs")
                w.bad.clear()
                continue
            _, t, n, xs, ys = ev[0][0]
            ctx.count("outputs compared")
            ctx.require(t == {"point": 1, "line": 3, "polygon": 5}[kind], "shape:type", "%s becomes a shape of type %s (%s)" % (what, t, site(m, fn)))
            if xs is None or ys is None or any(x not in known for x in xs + ys):
                ctx.count("undecided outputs")
                continue
            got = [list(x) for x in zip(xs, ys)]
            thin = [x for k, x in enumerate(seq) if k == 0 or x != seq[k - 1]]
            gthin = [x for k, x in enumerate(got) if k == 0 or x != got[k - 1]]
            name = lambda s: " ".join("%s/%s" % (known[a], known[b]) for a, b in s)
            ctx.require(gthin == thin and len(got) <= len(seq), "shape:" + kind, "%s becomes a shape of %s, expected %s (%s)" % (what, name(got), name(thin), site(m, fn)))
    # long ways: what is written before the coordinates
    for n in (300, 70000):
        for kind in ("line", "polygon"):
            for fmt, fn, get in (("wkb", "drv_wkb", wkb_tokens), ("hex", "drv_hex", hex_tokens)):
                w = Stream(m)
                w.calls = []
                mem = w.vector(LIST, L.ls, "n", L.wn, n)
                for k in (0, n - 1):
                    mem[(data("n"), k * L.wn + L.ref)] = I(1)
                st = [e for how, v, k, e in calls(w, "drv_%s_list" % kind, [GEO, LIST, I(0)], mem) or () if how == "ret"]
                want = [1] + le(TYPES[kind][0]) + (le(1) if kind == "polygon" else []) + le(n)
                w.limit = len(want) * (2 if fmt == "hex" else 1)
                if len(st) != 1 or w.bad:
                    ctx.count("undecided geometries")
                    continue
                ev = None
                try:
                    r = run_fn(m, w, fn, [OUT, GEO, I(0)], st[0].mem)
                except Enough as e:
                    ev = e.args[0]
                except AnalysisBroken:
                    pass
                try:
                    # the events before the first coordinate
                    got = get([x for x in ev or () if not (x[0] == "h" or x[0] == "w" and any(isinstance(y, tuple) or y is None for y in x[1]))], {})[:len(want)]
                except Undecided:
                    got = []
                if len(got) < len(want):
                    ctx.count("undecided outputs")
                    continue
                ctx.count("counts of long ways compared")
                ctx.require(got == want, "%s:count" % fmt, "a %s of %d nodes as %s is %s (%s)" % ("line string" if kind == "line" else kind, n, fmt.upper(), cut(got, {}, want), site(m, fn)))
    ctx.at_least("outputs compared", 40)


def ogr(ctx, m, what, kind, fn, out, seq, known):
    v, e = out
    have, cls, rings = {}, {}, {}
    for x in e.auto:
        if x[0] == "new":
            cls[x[2]] = x[1]
            have[x[2]] = [list(x[3])] if x[1] == "OGRPoint" and len(x[3]) >= 2 else []
        elif x[0] == "call" and x[2] in have:
            f, this, a = x[1], x[2], x[3]
            if f == "addPoint" and len(a) >= 2:
                have[this].append(list(a[:2]))
            elif f == "setNumPoints" and a and a[0][0] == "i" and 0 <= a[0][1] < 50:
                have[this] = (have[this] + [None] * 50)[:a[0][1]]
            elif f == "setPoint" and len(a) >= 3 and a[0][0] == "i" and 0 <= a[0][1] < 50:
                have[this] += [None] * (a[0][1] + 1 - len(have[this]))
                have[this][a[0][1]] = list(a[1:3])
            elif f in ("setX", "setY") and a:
                p = have[this] or [[None, None]]
                p[0]["XY".index(f[3])] = a[0]
                have[this] = p
            elif len(a) == 1 and a[0] in have:
                rings.setdefault(this, []).append(a[0])
            elif f in ("getNumPoints", "getX", "getY", "assignSpatialReference"):
                pass
            else:
                ctx.count("undecided outputs")
                return
        elif x[0] not in ("prec", "fixed"):
            ctx.count("undecided outputs")
            return
    if v not in cls:
        ctx.count("undecided outputs")
        return
    want = {"point": "OGRPoint", "line": "OGRLineString", "polygon": "OGRPolygon"}[kind]
    ctx.count("outputs compared")
    ctx.require(cls[v] == want, "ogr:type", "%s becomes an %s (%s)" % (what, cls[v], site(m, fn)))
    if kind == "polygon":
        rs = rings.get(v, [])
        ctx.require(len(rs) == 1, "ogr:ring", "%s becomes an OGR polygon with %d rings (%s)" % (what, len(rs), site(m, fn)))
        if len(rs) != 1:
            return
        v = rs[0]
    got = have[v]
    if any(p is None or any(t not in known for t in p) for p in got):
        if not any(p is None for p in got):
            ctx.count("undecided outputs")
            return
    name = lambda s: " ".join("nothing" if p is None else "%s/%s" % (known[p[0]], known[p[1]]) for p in s)
    ctx.require(got == seq, "ogr:" + kind, "%s becomes an OGR geometry of %s, expected %s (%s)" % (what, name(got), name(seq), site(m, fn)))
