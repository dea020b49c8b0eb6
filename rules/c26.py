"""The shapefile writer is interpreted abstractly: the shape library is a model with files, fields, records and sizes, every call
of which is an event. Texts are every arrangement of characters of one to four bytes around the width of a field; sizes are
brought to the limit by extrapolating what one more shape changes. Nothing is executed."""
import re
from ir import translate, AnalysisBroken, FOREACH, STDFN, strip_templates, Undecided
from absint import I
from scenario import obj, World
from seqs import Seqs, ITERS, Outside, data, strip_of
from strings import S, params
from orders import sgn
from rules.handlers import site
from rules.steps import Run
from rules.c13 import cell_of

F, NAME, TEXT = obj("F"), obj("NAME"), obj("TEXT")
LIMIT = 2147483647
FILLED, WIDE = 1 << 40, (1 << 40) + 1       # marks of local buffers
POINT, ARC, POLYGON = 1, 3, 5
ATTR = re.compile(r"DBFWrite(\w+)Attribute$")


def load():
    return translate("shapefile.cpp", also=(FOREACH, STDFN, r"^boost::shared_ptr<", r"^__gnu_cxx::__normal_iterator<") + ITERS, inc=("geos_stub",))


def size_of(t, parts, n):
    """bytes of a record in the main file (ESRI Shapefile Technical Description)"""
    box, count, xy, rng = 32, 4, 16 * n, 16
    z, mm = rng + 8 * n, rng + 8 * n
    body = {0: 0, 1: 16, 8: box + count + xy, 3: box + 2 * count + 4 * parts + xy,
            21: 24, 28: box + count + xy + mm, 23: box + 2 * count + 4 * parts + xy + mm,
            11: 32, 18: box + count + xy + z + mm, 13: box + 2 * count + 4 * parts + xy + z + mm, 31: box + 2 * count + 8 * parts + xy + z + mm}
    body[5], body[25], body[15] = body[3], body[23], body[13]
    return 8 + 4 + body[t]


class Shp(Seqs):
    """the shape library, streams and buffers; at most one of the calls named in self.fails fails"""
    fails = ()

    def __init__(self, m):
        Seqs.__init__(self, m)
        self.o = {f: cell_of(m, m.fn("drv_o" + f)) for f in ("type", "verts", "parts")}
        self.ht = cell_of(m, m.fn("drv_type"))
        if None in list(self.o.values()) + [self.ht]:
            raise AnalysisBroken("the fields of a shape cannot be found")

    def ev(self, st, *e):
        return self.event(st, e)[0][2]

    def num(self, ai, st, v):
        return None if v is None else ai.const_of(st, v)

    # ---- buffers --------------------------------------------------------
    def buffer(self, ai, a):
        """size of the local object at base a"""
        if a[0][0] != "alloca":
            return None
        k = str(a[0][1]).split("#")[-1]
        i = ai.fn.insts.get(int(k)) if k.isdigit() else None
        return i.d.get("size") if i is not None and i.op == "alloca" else None

    def access(self, ai, st, inst, ptr, size, write):
        if ptr[0] == "i":
            self.wrong(inst, "%s through a null pointer" % ("writes" if write else "reads"))
        a = ai.addr(ptr)
        n = self.buffer(ai, a) if a and isinstance(a[1], int) else None
        if n is not None and not 0 <= a[1] <= n - size:
            self.wrong(inst, "%s byte %d of a buffer of %d" % ("writes" if write else "reads", a[1], n))
        if n is not None and not write and size == 1 and self.unset(ai, st, a):
            self.wrong(inst, "reads byte %d of a buffer, which was never written" % a[1])
        Seqs.access(self, ai, st, inst, ptr, size, write)

    def text(self, ai, st, v):
        t = Seqs.text(self, ai, st, v)
        a = ai.addr(v) if ai is not None and v is not None and v[0] in "ps" else None
        if t is None and a and isinstance(a[1], int):
            n, t = self.buffer(ai, a), ""
            for k in range(a[1], n if n is not None else a[1] + 1024):
                c = st.mem.get((a[0], k))
                if c is None or c[0] != "i":
                    return None
                if c[1] == 0:
                    return t
                t += chr(c[1] & 255)
            return None
        return t

    def copy(self, ai, st, inst, dst, t):
        """bytes t (integers) are written to dst"""
        a = ai.addr(dst)
        if a is None or not isinstance(a[1], int):
            return None
        if t:
            self.access(ai, st, inst, dst, len(t), True)
        s = st.copy()
        ai.clear(s, a[0], a[1], a[1] + len(t))
        for k, c in enumerate(t):
            s.mem[(a[0], a[1] + k)] = I(sgn(c, 8))
        if self.buffer(ai, a) is not None:
            s.mem[(a[0], FILLED)] = I(1)
        return s

    def store(self, ai, st, inst, ptr, v):
        a = ai.addr(ptr)
        if a is not None and inst.d.get("size", 1) > 1 and self.buffer(ai, a) is not None:
            st.mem[(a[0], WIDE)] = I(1)
        return Seqs.store(self, ai, st, inst, ptr, v)

    def unset(self, ai, st, a):
        """a byte of a buffer that is only filled byte by byte and with texts was never written"""
        return (a[0], FILLED) in st.mem and (a[0], WIDE) not in st.mem and a not in st.mem and ai.load(st, ("p", a[0], a[1]), None, 1) is None

    def loaded(self, ai, st, a, val, size):
        r = Seqs.loaded(self, ai, st, a, val, size)
        if r is not None and r[0] == "i" and size == 1 and a[0][0] == "s" and isinstance(a[0][1], tuple) and a[0][1][0] == "chr":
            return I(sgn(r[1], 8))
        return r

    # ---- calls ------------------------------------------------------------
    def fail(self, st, what):
        if what not in self.fails or any(x[0] == "fail" for x in st.auto or ()):
            return None
        return self.ev(st, "fail", what)

    def both(self, st, what, ok, bad):
        f = self.fail(st, what)
        return ok + ([("ret", bad, f)] if f is not None else [])

    def new(self, ai, st, what, *e):
        k = sum(1 for x in st.auto or () if x[0] == what)
        h = obj("%s%d" % (what, k))
        s = self.ev(st, what, h, *e)
        s.mem[(h, "open")] = I(1)
        return h, s

    def use(self, st, inst, h, what):
        """the handle must be open"""
        if h == I(0) or h[0] == "i":
            self.wrong(inst, "%s with no file open" % what)
        if st.mem.get((h, "open")) == I(0):
            self.wrong(inst, "%s with a file that was closed" % what)

    def call(self, ai, st, inst, name, args):
        full = ai.m.callee(inst) or name or ""
        base = strip_templates(ai.m.base(inst) or name or "")
        num = lambda k: self.num(ai, st, args[k]) if k < len(args) else None
        if base == "SHPCreate":
            h, s = self.new(ai, st, "shp", self.text(ai, st, args[0]), num(1))
            s.mem[(h, self.ht)], s.mem[(h, "bytes")], s.mem[(h, "records")] = args[1], I(100), I(0)
            return self.both(st, "SHPCreate", [("ret", h, s)], I(0))
        if base == "DBFCreate":
            h, s = self.new(ai, st, "dbf", self.text(ai, st, args[0]))
            s.mem[(h, "bytes")], s.mem[(h, "len")], s.mem[(h, "fields")] = I(33), I(1), I(0)
            return self.both(st, "DBFCreate", [("ret", h, s)], I(0))
        if base in ("SHPClose", "DBFClose"):
            self.use(st, inst, args[0], base)
            s = self.ev(st, "close", args[0])
            s.mem[(args[0], "open")] = I(0)
            return [("ret", None, s)]
        if base == "DBFAddField":
            self.use(st, inst, args[0], base)
            w, h = num(3), args[0]
            if w is None or (h, "fields") not in st.mem:
                return None
            n = st.mem[(h, "fields")][1]
            s = self.ev(st, "field", h, self.text(ai, st, args[1]), num(2), w, num(4))
            s.mem[(h, "fields")], s.mem[(h, "len")] = I(n + 1), I(s.mem[(h, "len")][1] + w)
            s.mem[(h, "bytes")] = I(s.mem[(h, "bytes")][1] + 32)
            return self.both(st, "DBFAddField", [("ret", I(n), s)], I(-1))
        if base == "SHPWriteObject":
            h, k, o = args[0], num(1), args[2]
            self.use(st, inst, h, base)
            v = [st.mem.get((o, self.o[f])) for f in ("type", "parts", "verts")]
            if None in v or any(x[0] != "i" for x in v) or (h, "records") not in st.mem:
                return None
            n = st.mem[(h, "records")][1]
            s = self.ev(st, "write", h, o, k)
            if k == -1 or k == n:
                s.mem[(h, "records")], s.mem[(h, "bytes")] = I(n + 1), I(s.mem[(h, "bytes")][1] + size_of(*[x[1] for x in v]))
            return self.both(st, base, [("ret", I(n if k == -1 else k), s)], I(-1))
        if base == "SHPDestroyObject":
            return [("ret", None, self.ev(st, "destroy", args[0]))]
        k = ATTR.match(base)
        if k:
            self.use(st, inst, args[0], base)
            v = None if len(args) < 4 else self.text(ai, st, args[3]) if k.group(1) == "String" else args[3]
            if v is None and len(args) == 4:
                a = ai.addr(args[3]) if args[3][0] in "ps" else None
                for o in range(a[1], self.buffer(ai, a) or 0) if a and isinstance(a[1], int) else ():
                    if self.unset(ai, st, (a[0], o)):
                        self.wrong(inst, "passes on byte %d of a buffer, which was never written" % o)
                    if st.mem.get((a[0], o), ("u",))[0] != "i" or st.mem[(a[0], o)][1] == 0:
                        break
            s = self.ev(st, "attr", args[0], num(1), num(2), k.group(1), v)
            return self.both(st, base, [("ret", I(1), s)], I(0))
        if base == "strncpy" or base == "strcpy":
            t, n = self.text(ai, st, args[1]), num(2) if base == "strncpy" else None
            if t is None or base == "strncpy" and n is None:
                return None
            b = [ord(c) for c in t]
            if base == "strcpy":
                b += [0]
            elif n < 0 or n > 1 << 20:
                self.wrong(inst, "copies %d bytes" % (n & ((1 << 64) - 1)))
            else:
                b = (b + [0] * n)[:n]
            s = self.copy(ai, st, inst, args[0], b)
            return None if s is None else [("ret", args[0], s)]
        if base in ("memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memset", "llvm.memset.p0.i64"):
            n = num(2)
            if n is not None and 0 <= n <= 4096 and ai.addr(args[0]) and self.buffer(ai, ai.addr(args[0])) is not None:
                if "memset" in base:
                    c = num(1)
                    b = None if c is None else [c & 255] * n
                else:
                    t = self.text(ai, st, args[1])
                    b = [ord(c) for c in t + "\0"] if t is not None else None
                    b = b[:n] if b is not None and len(b) >= n else None
                if b is not None:
                    s = self.copy(ai, st, inst, args[0], b)
                    return None if s is None else [("ret", args[0] if "ty" in inst.d else None, s)]
        if base == "strnlen":
            t, n = self.text(ai, st, args[0]), num(1)
            return None if t is None or n is None else [("ret", I(min(len(t), n)), st)]
        if base.endswith("shared_count::shared_count"):
            a = ai.addr(args[0])
            s = st.copy()
            ai.clear(s, a[0], a[1], a[1] + 8)
            s.mem[a] = ("s", ("own", args[1], args[2])) if len(args) > 2 else ("u",)
            return [("ret", None, s)]
        if base.endswith("shared_count::~shared_count"):
            v = st.mem.get(ai.addr(args[0]))
            if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "own" and v[1][2][0] == "fn":
                return [("ret", None, self.ev(st, "destroy" if v[1][2][1] == "SHPDestroyObject" else "free", v[1][1]))]
            return [("ret", None, st)]
        if "sp_deleter_construct" in base or base.endswith("sp_enable_shared_from_this"):
            return [("ret", None, st)]
        r = self.streams(ai, st, inst, base, full, args)
        if r is not None:
            return r
        return Seqs.call(self, ai, st, inst, name, args)

    def streams(self, ai, st, inst, base, full, args):
        if "basic_ostringstream" in base or "basic_stringstream" in base:
            f = base.split("::")[-1]
            if f in ("basic_ostringstream", "basic_stringstream") and params(full) == "":
                return [("ret", None, self.put(ai, st, args[0], ""))]
            if f == "str" and len(args) == 2:
                return [("ret", None, self.put(ai, st, args[0], self.text(ai, st, args[1])))]
            if f.startswith("~"):
                return [("ret", None, st)]
        if "operator<<" in base and args:
            t, p = self.text(ai, st, args[0]), strip_templates(params(full)).split(", ")[-1]
            if t is None:
                return [("ret", args[0], self.ev(st, "put", args[0]))] if "basic_ostream" in full or "std::ostream" in full else None
            x = self.text(ai, st, args[1]) if "char const*" in p or "basic_string" in p else None
            if x is None and p in ("int", "unsigned int", "long", "unsigned long") and self.num(ai, st, args[1]) is not None:
                x = str(self.num(ai, st, args[1]))
            if x is None and p == "char" and self.num(ai, st, args[1]) is not None:
                x = chr(self.num(ai, st, args[1]) & 255)
            return [("ret", args[0], self.put(ai, st, args[0], None if x is None else t + x))]
        f = base.split("::")[-1]
        if "std::basic_ofstream" in base or base.startswith("std::basic_ios::"):
            if f in ("basic_ofstream", "~basic_ofstream"):
                return [("ret", None, st)]
            if f in ("open", "close"):
                return [("ret", None, st)]
            if f in ("fail", "bad", "operator!"):
                return self.both(st, "stream", [("ret", I(0), st)], I(1))
            if f in ("good", "operator bool"):
                return self.both(st, "stream", [("ret", I(1), st)], I(0))
        return None

    def no_havoc(self, ai, st, addr, inst):
        n = strip_of(ai.m.callee(inst) or "")
        return n.startswith(("SHP", "DBF", "std::runtime_error", "std::invalid_argument", "std::out_of_range", "__cxa")) or Seqs.no_havoc(self, ai, st, addr, inst)


def shape(w, name, t, parts=0, verts=0):
    o = obj(name)
    return o, {(o, w.o["type"]): I(t), (o, w.o["parts"]): I(parts), (o, w.o["verts"]): I(verts)}


def start(ctx, m, t, fields=()):
    r = Run(m, Shp(m))
    if t in ("point", "line", "polygon"):
        if r.step("drv_new_" + t, F, NAME, cells={(NAME, 0): S("name")}) != "ret":
            return None
    elif r.step("drv_new", F, NAME, I(t), cells={(NAME, 0): S("name")}) != "ret":
        return None
    for n, ty, wd in fields:
        if r.step("drv_field", F, TEXT, I(ty), I(wd), I(3 if ty == 2 else 0), cells={(TEXT, 0): S(n)}) != "ret":
            return None
    return r


def texts(width, full):
    """texts whose characters end at every distance from the width"""
    ch = {1: "a", 2: "\u00e9", 3: "\u20ac", 4: "\U0001f600"}
    # first and last characters of each length: lead and continuation bytes of every form
    alt = {2: "\u0080\u07ff", 3: "\u0800\uffff", 4: "\U00010000\U0010ffff"}
    out = [""]
    for tail in ([1, 2, 3, 4, 12, 13, 14, 23, 24, 34, 22, 33, 44, 31, 41, 21, 42, 43, 32] if full else [1, 2, 3, 4, 23, 34, 42]):
        ls = [int(c) for c in str(tail)]
        for end in range(-1, sum(ls) + 1):
            lead = width + end - sum(ls)
            if lead < 0:
                continue
            out.append("x" * lead + "".join(ch[k] for k in ls))
            if len(ls) == 1 and ls[0] > 1:
                out += ["x" * lead + c for c in alt[ls[0]]]
            out.append(out[-1] + "y" * 5)
    return list(dict.fromkeys(t.encode("utf-8").decode("latin-1") for t in out))


def best(b, width):
    k = min(len(b), width)
    while k < len(b) and 0x80 <= ord(b[k]) < 0xc0:
        k -= 1
    return b[:k]


def run(ctx):
    ctx.rules = ["what a text attribute becomes is the longest part of it that fits the field and ends between characters; no byte outside the buffer is touched",
                 "names of 1 to 11 characters, widths of 1 to 255 and 2047 fields are accepted, others refused before the file is changed",
                 "a shape is written only to a file of its type", "no file exceeds 2147483647 bytes; a new one has the same type and fields", "attributes go to the record of the last shape"]
    ctx.assumptions = ["texts are UTF-8", "shapes of one kind change the counters of the writer by the same amounts, so a step can be repeated", "sizes of a file are those of the specification, without an end-of-file mark"]
    m = load()
    cuts(ctx, m)
    fields(ctx, m)
    types(ctx, m)
    records(ctx, m)
    sizes(ctx, m)
    ctx.at_least("texts", 60)


def cuts(ctx, m):
    for width in [1, 2, 3, 4, 5, 254, 255] + ([6, 10, 80, 253] if ctx.thorough else []):
        r0 = start(ctx, m, POINT, [("n", 1, 7), ("t", 0, width)])
        if r0 is None:
            ctx.count("undecided")
            continue
        o, cells = shape(r0.w, "SH", POINT, 0, 1)
        if r0.step("drv_shape", F, o, cells=cells) != "ret":
            ctx.count("undecided")
            continue
        for t in texts(width, ctx.thorough or width < 5):
            for fn, kind in (("drv_cut", "char*"), ("drv_cut_string", "string")):
                if kind == "string" and not (ctx.thorough or width in (3, 255)):
                    continue
                r = r0.copy()
                if kind == "string":
                    how = r.step(fn, F, I(1), TEXT, cells={(TEXT, 0): S(t)})
                else:
                    how = r.step(fn, F, I(1), ("s", ("chr", t, 0)))
                what = "a text of %d bytes %s in a field of %d" % (len(t), " ".join("%02x" % ord(c) for c in t[-6:]), width)
                if how == "bad":
                    l = list(r.broke.items())[0]
                    ctx.violation("cut:buffer", "%s: %s (%s)" % (what, l[1], l[0]))
                    continue
                e = [x for x in r.last if x[0] == "attr"]
                if how != "ret" or len(e) != 1 or e[0][5] is None:
                    ctx.count("undecided texts")
                    continue
                ctx.count("texts")
                got, want = e[0][5], best(t, width)
                ctx.require(len(got) <= width, "cut:width", "%s: %d bytes are written (%s)" % (what, len(got), site(m, fn)))
                ctx.require(got == want or len(got) > width, "cut:character", "%s becomes %d bytes ending in %s, expected %d (%s)" % (what, len(got), " ".join("%02x" % ord(c) for c in got[-4:]), len(want), site(m, fn)))


def fields(ctx, m):
    r0 = start(ctx, m, POINT)
    if r0 is None:
        ctx.count("undecided")
        return
    FT = {"string": 0, "integer": 1, "double": 2, "bool": 3}

    def add(r, fn, *args, cells):
        how = r.step(fn, *args, cells=cells)
        if how == "bad":
            l = list(r.broke.items())[0]
            ctx.violation("field:access", "adding a field: %s (%s)" % (l[1], l[0]))
            return None
        if how is None:
            ctx.count("undecided fields")
            return None
        ctx.count("fields")
        return how, [x for x in r.last if x[0] == "field"]

    def judge(a, valid, what, fn, want=None):
        if a is None:
            return
        how, e = a
        if not valid:
            ctx.require(how != "ret", "field:refused", "%s is not refused (%s)" % (what, site(m, fn)))
            ctx.require(not e, "field:refused", "%s is added to the file (%s)" % (what, site(m, fn)))
        else:
            ctx.require(how == "ret" and len(e) == 1, "field:accepted", "%s is refused (%s)" % (what, site(m, fn)))
            if how == "ret" and len(e) == 1 and want is not None and None not in e[0]:
                ctx.require(e[0][2:5] == want[:3] and (len(want) < 4 or e[0][5] == want[3]), "field:added", "%s becomes a field %s of type %s, width %s, %s decimals (%s)" % (what, e[0][2], e[0][3], e[0][4], e[0][5], site(m, fn)))
    for n in (0, 1, 2, 10, 11, 12, 13, 50, 255, 256, 267):
        name = "abcdefghijkl"[:n] if n < 13 else "q" * n
        judge(add(r0.copy(), "drv_field", F, TEXT, I(0), I(9), I(0), cells={(TEXT, 0): S(name)}), 1 <= n <= 11, "a field with a name of %d characters" % n, "drv_field", (name, 0, 9))
        for ty in FT:
            judge(add(r0.copy(), "drv_field_named", F, TEXT, NAME, I(9), I(0), cells={(TEXT, 0): S(name), (NAME, 0): S(ty)}), 1 <= n <= 11, "a %s field with a name of %d characters" % (ty, n), "drv_field_named",
                  (name, FT[ty], 1 if ty == "bool" else 9, 0))
    for wd in (-2147483648, -256, -255, -1, 0, 1, 2, 127, 128, 129, 254, 255, 256, 257, 300, 511, 65537, 2147483647):
        for ty in FT:
            judge(add(r0.copy(), "drv_field", F, TEXT, I(FT[ty]), I(wd), I(0), cells={(TEXT, 0): S("n")}), 1 <= wd <= 255, "a %s field of width %d" % (ty, wd), "drv_field", ("n", FT[ty], wd))
            judge(add(r0.copy(), "drv_field_named", F, TEXT, NAME, I(wd), I(3), cells={(TEXT, 0): S("n"), (NAME, 0): S(ty)}), ty == "bool" or 1 <= wd <= 255, "a %s field of width %d" % (ty, wd), "drv_field_named",
                  ("n", FT[ty], 1 if ty == "bool" else wd, 3 if ty == "double" else 0))
    for ty in ("text", "", "String", "int", "boolean"):
        judge(add(r0.copy(), "drv_field_named", F, TEXT, NAME, I(9), I(0), cells={(TEXT, 0): S("n"), (NAME, 0): S(ty)}), False, "a field of unknown type '%s'" % ty, "drv_field_named")
    # the number of fields
    lists = [k for k, v in r0.mem.items() if k[0] == F and isinstance(k[1], int) and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "vec"]
    if len(lists) != 1:
        ctx.count("undecided fields")
        return
    b, o = lists[0]
    dbf = obj("dbf0")
    for n in (1, 2045, 2046, 2047, 2048, 2049, 4094):
        r = r0.copy()
        r.mem[(b, o + 8)], r.mem[(dbf, "fields")] = I(n), I(n)
        for fn in ("drv_field", "drv_field_named"):
            args = (F, TEXT, I(0), I(9), I(0)) if fn == "drv_field" else (F, TEXT, NAME, I(9), I(0))
            judge(add(r.copy(), fn, *args, cells={(TEXT, 0): S("n"), (NAME, 0): S("string")}), n < 2047, "a field after %d fields" % n, fn, ("n", 0, 9))


ALL = (0, 1, 3, 5, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31)


def types(ctx, m):
    for new, t in (("point", POINT), ("line", ARC), ("polygon", POLYGON)) + tuple((k, k) for k in ALL if k):
        r0 = start(ctx, m, new, [("n", 0, 5)])
        if r0 is None:
            ctx.count("undecided")
            continue
        e = [x for x in r0.auto if x[0] == "shp"]
        ctx.require(len(e) == 1 and e[0][3] == t, "type:file", "the file has type %s, expected %d (%s)" % (e[0][3] if e else None, t, site(m, "drv_new")))
        for s in ALL + (None,) + ((2, -1, 99) if ctx.thorough else (99,)):
            r = r0.copy()
            o, cells = shape(r.w, "SH", s or 0, 1, 3) if s is not None else (I(0), {})
            how = r.step("drv_shape", F, o, cells=cells)
            what = "a shape of type %s added to a file of type %d" % (s, t) if s is not None else "no shape added to a file"
            if how == "bad":
                l = list(r.broke.items())[0]
                ctx.violation("type:access", "%s: %s (%s)" % (what, l[1], l[0]))
                continue
            if how is None:
                ctx.count("undecided shapes")
                continue
            ctx.count("shapes")
            wr = [x for x in r.last if x[0] == "write"]
            if s != t:
                ctx.require(how != "ret", "type:refused", "%s is not refused (%s)" % (what, site(m, "drv_shape")))
                ctx.require(not wr, "type:refused", "%s is written (%s)" % (what, site(m, "drv_shape")))
            else:
                ctx.require(how == "ret" and len(wr) == 1 and wr[0][2] == o, "type:accepted", "%s is %s (%s)" % (what, "refused" if how != "ret" else "written %d times" % len(wr), site(m, "drv_shape")))


def check_attrs(ctx, m, r, when):
    """attributes go to the last record of the open file"""
    wr = [x for x in r.auto if x[0] == "write"]
    dbf = [x for x in r.auto if x[0] == "dbf"]
    if not wr or not dbf:
        return
    rec = r.mem[(wr[-1][1], "records")][1] - 1
    T = {(TEXT, 0): S("x")}
    c = ("s", ("chr", "xyz", 0))
    for fn, args, kind, val in (("drv_bool", [I(1)], "Logical", I(ord("T"))), ("drv_bool", [I(0)], "Logical", I(ord("F"))), ("drv_int", [I(42)], "Integer", I(42)), ("drv_double", [("s", ("in", "d"))], "Double", ("s", ("in", "d"))),
                                ("drv_string", [TEXT], "String", "x"), ("drv_chars", [c], "String", "xyz"), ("drv_null", [], "NULL", None), ("drv_cut", [("s", ("chr", "q", 0))], "String", "q"), ("drv_cut_string", [TEXT], "String", "x")):
        for f in (0, 1):
            q = r.copy()
            how = q.step(fn, F, I(f), *args, cells=T)
            if how == "bad":
                l = list(q.broke.items())[0]
                ctx.violation("record:access", "writing an attribute %s: %s (%s)" % (when, l[1], l[0]))
                continue
            e = [x for x in q.last if x[0] == "attr"]
            if how != "ret" or len(e) != 1:
                ctx.count("undecided attributes")
                continue
            ctx.count("attributes")
            _, h, n, at, k, v = e[0]
            ctx.require(h == dbf[-1][1] and n == rec, "record", "an attribute %s is written to record %s, the shape has record %d (%s)" % (when, n, rec, site(m, fn)))
            ctx.require(at == f, "record:field", "an attribute for field %d is written to field %s (%s)" % (f, at, site(m, fn)))
            if v is not None or kind == "NULL":
                ctx.require(k == kind and v == val, "record:value", "an attribute is written as %s %s (%s)" % (k, v if isinstance(v, str) or v is None else v[1], site(m, fn)))


def records(ctx, m):
    r = start(ctx, m, POLYGON, [("a", 0, 5), ("b", 1, 9)])
    if r is None:
        ctx.count("undecided")
        return
    for k in range(3):
        o, cells = shape(r.w, "SH%d" % k, POLYGON, 1 + k, 4 + k)
        if r.step("drv_shape", F, o, cells=cells) != "ret":
            ctx.count("undecided")
            return
        check_attrs(ctx, m, r, "after shape %d" % (k + 1))


def counters(mem):
    return {k: v[1] for k, v in mem.items() if v[0] == "i" and (k[0] == F or k[1] in ("records", "bytes"))}


def sizes(ctx, m):
    H = LIMIT - 33

    def fit(nf):
        """widths of nf fields so that the attribute file can be filled to the last byte"""
        for rl in range(nf + 1 + 40, nf * 255 + 2):
            if (H - 32 * nf) % rl == rl - 1 and rl - 1 >= nf:
                q, rest = divmod(rl - 1, nf)
                ws = [q + (k < rest) for k in range(nf)]
                if max(ws) <= 255:
                    return [("f%d" % k, (0, 1, 2)[k % 3], x) for k, x in enumerate(ws)]
        return None
    # attribute files that are filled first: points take 28 bytes
    cases = [(POINT, 0, 1, f) for f in [[("d", 2, 255), ("s", 0, 254)]] + [fit(k) for k in (1, 2, 3)] if f]
    if ctx.thorough:
        cases += [(POINT, 0, 1, f) for f in (fit(5), [("f%d" % k, 0, 255) for k in range(20)]) if f]
    # shapes of every type, with few bytes of attributes
    big = [(300, 2000)] + ([(256, 255), (1024, 255), (2047, 255)] if ctx.thorough else [])
    cases += [(POINT, 0, 1, [("f%d" % k, (0, 1, 2, 3)[k % 4], 1 + k % w) for k in range(n)]) for n, w in [(300, 255)] + big[1:]]
    for t in ALL:
        if t == 0:
            continue
        closest = None
        for parts in (1, 2, 3):
            for n in range(1, 60):
                s = size_of(t, parts, n)
                if t in (1, 11, 21) and (parts, n) != (1, 1):
                    continue
                free = s - 1 - (LIMIT - 100) % s
                if closest is None or free < closest[0]:
                    closest = (free, parts, n)
        cases.append((t, closest[1], closest[2], [("n", 0, 3), ("m", 1, 2)]))
        if t not in (1, 11, 21):
            cases.append((t, 7, 3, [("n", 0, 3), ("m", 1, 2)]))
    for t, parts, n, fs in cases:
        r = start(ctx, m, t, fs)
        if r is None:
            ctx.count("undecided")
            continue
        size = size_of(t, parts, n)
        rl = 1 + sum(x[2] for x in fs)
        what = "a file of shapes of type %d with %d parts and %d vertices and records of %d bytes" % (t, parts, n, rl)
        o, cells = shape(r.w, "SH", t, parts, n)
        files = 0
        broken = False
        for turn in range(2 if ctx.thorough or t in (POINT, POLYGON) else 1):
            snaps = []
            for k in range(3):
                if r.step("drv_shape", F, o, cells=cells) != "ret":
                    broken = True
                    break
                snaps.append(counters(r.mem))
            if broken:
                break
            d1 = {k: snaps[1][k] - snaps[0].get(k, 0) for k in snaps[1]}
            d2 = {k: snaps[2][k] - snaps[1].get(k, 0) for k in snaps[2]}
            if d1 != d2:
                broken = True
                break
            # repeat the step until three more shapes fit
            shp, dbf = [[x for x in r.auto if x[0] == f][-1][1] for f in ("shp", "dbf")]
            have = r.mem[(shp, "records")][1]
            fit_ = min((LIMIT - 100) // size, (LIMIT - 33 - 32 * len(fs)) // rl)
            j = fit_ - have - 3
            for k, d in d2.items():
                if d:
                    r.mem[k] = I(r.mem[k][1] + j * d)
            c = r.mem[(shp, "records")][1]
            assert c == fit_ - 3
            prev = len([x for x in r.auto if x[0] == "shp"])
            for k in range(6):
                how = r.step("drv_shape", F, o, cells=cells)
                if how == "bad":
                    l = list(r.broke.items())[0]
                    ctx.violation("size:access", "%s: %s (%s)" % (what, l[1], l[0]))
                if how == ("throw", None) or isinstance(how, tuple):
                    ctx.violation("size:refused", "%s: a shape that does not fit any more is refused (%s)" % (what, site(m, "drv_shape")))
                if how != "ret":
                    broken = True
                    break
                wr = [x for x in r.last if x[0] == "write"]
                if len(wr) != 1:
                    broken = True
                    break
                h = wr[0][1]
                dbf = [x for x in r.auto if x[0] == "dbf"][-1][1]
                b, a = r.mem[(h, "bytes")][1], 33 + 32 * len(fs) + rl * r.mem[(h, "records")][1]
                ctx.count("sizes")
                ctx.require(b <= LIMIT, "size:shp", "%s: the file of shapes grows to %d bytes (%s)" % (what, b, site(m, "drv_shape")))
                ctx.require(a <= LIMIT, "size:dbf", "%s: the file of attributes grows to %d bytes (%s)" % (what, a, site(m, "drv_shape")))
                now = [x for x in r.auto if x[0] == "shp"]
                if len(now) > prev and files < len(now) - 1:
                    files = len(now) - 1
                    rollover(ctx, m, r, what, t, fs)
                    check_attrs(ctx, m, r, "after the start of a new file") if len(fs) > 1 else None
            if broken:
                break
            if files <= turn:
                if not any(k.startswith("size:") for k in ctx.viol):
                    ctx.count("undecided sizes")
                break
        if broken:
            ctx.count("undecided sizes")


def rollover(ctx, m, r, what, t, fs):
    shp, dbf = [x for x in r.auto if x[0] == "shp"], [x for x in r.auto if x[0] == "dbf"]
    at = site(m, "drv_shape")
    ctx.count("new files")
    closed = {x[1] for x in r.auto if x[0] == "close"}
    for h in [x[1] for x in shp[:-1] + dbf[:-1]]:
        ctx.require(h in closed, "new:closed", "%s: a file is not closed when the next is started (%s)" % (what, at))
    ctx.require(len(shp) == len(dbf), "new:pair", "%s: %d files of shapes and %d of attributes are started (%s)" % (what, len(shp), len(dbf), at))
    ctx.require(shp[-1][3] == t, "new:type", "%s: the new file has type %s (%s)" % (what, shp[-1][3], at))
    names = [x[2] for x in shp]
    if None not in names:
        ctx.require(len(set(names)) == len(names), "new:name", "%s: the new file has the name of another (%s)" % (what, at))
        ctx.require([x[2] for x in dbf] == names, "new:name", "%s: shapes and attributes of one file have different names (%s)" % (what, at))
    per = [[x[2:] for x in r.auto if x[0] == "field" and x[1] == d[1]] for d in dbf]
    ctx.require(all(p == per[0] for p in per), "new:fields", "%s: the new file has the fields %s, the first %s (%s)" % (what, [p[0] for p in per[-1]], [p[0] for p in per[0]], at))
