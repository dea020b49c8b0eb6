"""Shared by C06, C09 and C10: the PBF writer over a model of the protobuf messages, the string table, zlib and write(). Messages
are trees; a serialisation is a text that stands for a copy of the tree, so that what is written can be decoded."""
import re
from ir import translate, FOREACH, STDFN, strip_templates
from absint import I
from scenario import obj
from seqs import ITERS
from strings import S, params
from orders import sgn
from rules.xmlw import Xml, Writer, X, META  # noqa: F401

MSG = re.compile(r"^(?:.*[ &*])?OSMPBF::(\w+)::(~?\w+)$")
BASE = 0x10000
SIZES = {"Blob": 61, "BlobHeader": 13, "HeaderBlock": 37, "PrimitiveBlock": 53}
DEFAULTS = {("PrimitiveBlock", "granularity"): 100, ("PrimitiveBlock", "date_granularity"): 1000}
MAXBLOCK = 32 * 1024 * 1024
# fields of messages and their width
TEXTS = ("s", "required_features", "optional_features", "writingprogram", "source", "type", "raw", "zlib_data")


def load():
    return translate("pbf_writer.cpp", keep=(r"^Osmium::StringTable::(~?StringTable|record_string|map_string_id|store_stringtable|clear)\(", r"^Osmium::Timestamp::"),
                     also=(FOREACH, STDFN, r"^boost::shared_ptr<") + ITERS)


class Big(str):
    """a text of which only the length matters"""
    def __new__(cls, c, n):
        r = str.__new__(cls, c)
        r.n = n
        return r

    def __len__(self):
        return self.n


class Pbf(Xml):
    shorts = False          # may one write be short?
    msgsize = 100           # what ByteSize() of an object returns
    blocksize = None        # length of a serialised block
    base = 0                # number of strings recorded and stored before those of the objects

    def __init__(self, m):
        Xml.__init__(self, m)
        self.trees = {}         # character -> (type, tree)
        self.codes = {}
        self.zips = {}

    # ---- numbers ------------------------------------------------------
    def arith(self, ai, st, inst, op, a, b):
        if op in ("fptosi", "fptoui") and b is None:
            r = self.real(a)
            if r is not None and abs(r) < 2 ** 63:
                return I(int(r))
        return Xml.arith(self, ai, st, inst, op, a, b)

    def intr(self, ai, st, inst, name, args):
        r = self.rounded(name, args)
        return r if r is not None else Xml.intr(self, ai, st, inst, name, args)

    def rounded(self, name, args):
        k = [f for f in ("round", "rint", "nearbyint", "floor", "ceil", "trunc", "roundeven") if name in (f, "std::" + f, "llvm.%s.f64" % f)]
        i = [f for f in ("lround", "llround", "lrint", "llrint") if name in (f, "std::" + f) or name.startswith("llvm.%s." % f)]
        v = self.real(args[0]) if (k or i) and args else None
        if v is None:
            return None
        import math
        n = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}.get((k or [""])[0])
        if n:
            x = n(v)
        elif (k or i)[0] in ("round", "lround", "llround"):
            x = math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1)
        else:
            x = round(v)
        return I(int(x)) if i else ("s", ("fp", repr(float(x))))

    # ---- messages -----------------------------------------------------
    def mb(self, a):
        return obj("pb%s+%s" % (str(a[0][1]) if not isinstance(a[0][1], tuple) else str(a[0][1][1]), a[1]))

    def aux(self, a):
        return obj("txt" + str(a[0]))

    def get(self, st, k, f):
        v = st.mem.get((k, "." + f))
        return None if v is None else v[1][1]

    def set(self, s, k, f, v):
        s.mem[(k, "." + f)] = ("s", ("field", v))

    def new(self, s, ty):
        c = (obj("pb:count"), 0)
        n = s.mem[c][1] + 1 if c in s.mem else 1
        s.mem[c] = I(n)
        h = obj("sub%d" % n)
        s.mem[(self.mb((h, 0)), "type")] = ("s", ("type", ty))
        return h

    def tree(self, st, k):
        """copy of a message: ((field, value), …); values are integers, texts, trees or tuples of them"""
        out = []
        for (b, f), v in st.mem.items():
            if b == k and isinstance(f, str) and f.startswith("."):
                x = v[1][1]
                sub = lambda y: ("msg", self.tree(st, self.mb((y, 0)))) if isinstance(y, tuple) and len(y) == 2 and y[0] == "s" else y
                out.append((f[1:], ("rep",) + tuple(sub(y) for y in x[1:]) if isinstance(x, tuple) and x and x[0] == "rep" else sub(x)))
        return tuple(sorted(out, key=lambda x: x[0]))

    def wipe(self, s, k):
        for (b, f), v in list(s.mem.items()):
            if b == k and isinstance(f, str) and f.startswith("."):
                x = v[1][1]
                for y in x[1:] if isinstance(x, tuple) and x and x[0] == "rep" else (x,):
                    if isinstance(y, tuple) and len(y) == 2 and y[0] == "s":
                        q = self.mb((y, 0))
                        self.wipe(s, q)
                        s.mem[(q, "gone")] = I(1)
                del s.mem[(b, f)]

    def message(self, ai, st, inst, ty, f, full, args):
        a = ai.addr(args[0])
        if a is None or not isinstance(a[1], int):
            if args[0] == I(0):
                self.wrong(inst, "%s::%s of a message that does not exist" % (ty, f))
            return None
        k = self.mb(a)
        if st.mem.get((k, "gone")) is not None:
            self.wrong(inst, "%s::%s of a part of a message that was cleared" % (ty, f))
        par = strip_templates(params(full))
        n = lambda i: self.num(ai, st, args[i])
        out = lambda v, s=st: [("ret", v, s)]
        if f in (ty, "~" + ty):
            s = st.copy()
            if f == ty:
                s.mem[(k, "type")] = ("s", ("type", ty))
            return out(None, s)
        if f == "Clear":
            s = st.copy()
            self.wipe(s, k)
            self.texts(ai, s, a, ty, True)
            return out(None, s)
        if f in ("ByteSize", "ByteSizeLong"):
            return out(I(self.msgsize))
        rep = lambda g: (self.get(st, k, g) or ("rep",))[1:]
        if f.endswith("_size") and f[:-5] and len(args) == 1:
            return out(I(len(rep(f[:-5]))))
        op, _, g = f.partition("_")
        if op == "has" and g:
            return out(I(int(self.get(st, k, g) is not None)))
        if op == "clear" and g:
            s = st.copy()
            s.mem.pop((k, "." + g), None)
            return out(None, s)
        if op == "mutable" and len(args) == 1:
            v = self.get(st, k, g)
            if v is not None:
                return out(v if v[0] == "s" else None)
            s = st.copy()
            h = self.new(s, g)
            self.set(s, k, g, h)
            return out(h, s)
        if op == "mutable" and len(args) == 2 or op not in ("set", "add") and len(args) == 2:
            i, r = n(1), rep(g if op == "mutable" else f)
            if i is None:
                return None
            if not 0 <= i < len(r):
                self.wrong(inst, "element %d of a list of %d" % (i, len(r)))
            v = r[i]
            return out(v if isinstance(v, tuple) else I(v))
        if op == "add" and len(args) == 1:
            s = st.copy()
            h = self.new(s, g)
            self.set(s, k, g, ("rep",) + rep(g) + (h,))
            return out(h, s)
        if op in ("set", "add"):
            text = "basic_string" in par or "char const*" in par or "void const*" in par or "char (&)" in full
            i = None
            if op == "set" and len(args) == 3 and not text:
                i = n(1)
                if i is None:
                    return None
            v = self.text(ai, st, args[-1] if not ("unsigned long" in par and len(args) == 3) else args[1]) if text else n(len(args) - 1)
            if v is None:
                if not text:
                    return None
                v = self.memory(st, ai.addr(args[1]))
                if v is None:
                    return None
            if text and "unsigned long" in par and len(args) == 3:
                c = n(2)
                if c is None:
                    return None
                v = v[:c] if len(v) >= c else v + "?" * (c - len(v))
            s = st.copy()
            if i is not None:
                r = rep(g)
                if not 0 <= i < len(r):
                    self.wrong(inst, "element %d of a list of %d" % (i, len(r)))
                self.set(s, k, g, ("rep",) + r[:i] + (v,) + r[i + 1:])
            elif op == "set":
                self.set(s, k, g, v)
            else:
                self.set(s, k, g, ("rep",) + rep(g) + (v,))
            return out(None, s)
        if len(args) == 1:
            v = self.get(st, k, f)
            if v is None:
                v = DEFAULTS.get((ty, f), 0)
            if isinstance(v, int):
                return out(I(v))
            if isinstance(v, tuple) and v[0] == "s":
                return out(v)
        return None

    def memory(self, st, a):
        v = st.mem.get(a) if a else None
        return v[1][1] if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "str" else None

    def texts(self, ai, s, a, ty, clear=False):
        """texts set by inlined setters of the message at a"""
        t = self.m.types.get("OSMPBF::" + ty)
        out = []
        for c, v in list(s.mem.items()):
            if c[0] == self.aux(a) and a[1] <= c[1] < a[1] + (t["size"] if t else 1 << 30):
                out.append(("@%d" % (c[1] - a[1]), v[1][1]))
                if clear:
                    del s.mem[c]
        return tuple(sorted(out))

    def serial(self, st, k, a):
        ty = st.mem.get((k, "type"))
        if ty is None:
            return None
        ty = ty[1][1]
        t = (ty, self.tree(st, k) + self.texts(None, st, a, ty))
        if t not in self.codes:
            self.codes[t] = chr(BASE + len(self.codes))
            self.trees[self.codes[t]] = t
        c = self.codes[t]
        n = SIZES.get(ty, 29)
        if ty in ("PrimitiveBlock", "HeaderBlock") and self.blocksize is not None:
            n = self.blocksize
        return c * n if n < 4096 else Big(c, n)

    # ---- calls ----------------------------------------------------------
    def call(self, ai, st, inst, name, args):
        full = ai.m.callee(inst) or name or ""
        b = strip_templates(ai.m.base(inst) or name or "")
        where = ai.m.loc(inst)
        ret = lambda v, s, what, bad: [("ret", v, s)] + ([("ret", bad, f)] if (f := self.fail(st, what, where)) is not None else [])
        num = lambda i: self.num(ai, st, args[i])
        r = self.rounded(b, args)
        if r is not None:
            return [("ret", r, st)]
        k = MSG.match(b)
        if k and args:
            return self.message(ai, st, inst, k.group(1), k.group(2), full, args)
        if b.endswith("MessageLite::ByteSize") or b.endswith("ByteSizeLong"):
            return [("ret", I(self.msgsize), st)]
        if re.search(r"::Serialize(Partial)?ToString$", b):
            a = ai.addr(args[0])
            t = self.serial(st, self.mb(a), a) if a else None
            if t is None:
                return None
            s = self.put(ai, st, args[1], t)
            f = self.fail(st, "serialize", where)
            return [("ret", I(1), s)] + ([("ret", I(0), self.put(ai, f, args[1], t[:5]))] if f is not None else [])
        if b.endswith("ArenaStringPtr::Set"):
            t = self.text(ai, st, args[1])
            a = ai.addr(args[0])
            if t is None or a is None:
                return None
            s = st.copy()
            s.mem[(self.aux(a), a[1])] = S(t)
            return [("ret", None, s)]
        if b.startswith("google::protobuf::") and b.endswith(("VerifyVersion", "GetArenaForAllocation", "GetOwningArena")):
            return [("ret", I(0) if "ty" in inst.d else None, st)]
        if b.startswith("Osmium::StringTable::"):
            return self.table(ai, st, inst, b.split("::")[-1], args)
        if b == "htonl":
            n = num(0)
            return None if n is None else [("ret", I(sgn(int.from_bytes((n & 0xffffffff).to_bytes(4, "little"), "big"), 32)), st)]
        if b in ("deflateInit_", "deflateInit2_", "deflate", "deflateEnd"):
            return self.zlib(ai, st, inst, b, args, where)
        if b == "write":
            return self.write(ai, st, inst, args, where)
        return Xml.call(self, ai, st, inst, name, args)

    def table(self, ai, st, inst, f, args):
        a = ai.addr(args[0])
        c, d = (self.mb(a), "strs"), (self.mb(a), "stored")
        out = lambda v, s=st: [("ret", v, s)]
        l = st.mem.get(c)
        l = l[1][1:] if l is not None else ()
        s = st.copy()
        if f in ("StringTable", "clear"):
            s.mem[c] = ("s", ("strs",))
            s.mem.pop(d, None)
            return out(None, s)
        if f.startswith("~"):
            return out(None)
        if f == "record_string":
            t = self.text(ai, st, args[1])
            if t is None:
                return None
            if t not in l:
                l += (t,)
                s.mem[c] = ("s", ("strs",) + l)
            return out(I(self.base + l.index(t) + 1), s)
        if f == "store_stringtable":
            p = ai.addr(args[1])
            if p is None:
                return None
            k = self.mb(p)
            if st.mem.get((k, "gone")) is not None:
                self.wrong(inst, "the string table is stored in a message that was cleared")
            self.set(s, k, "s", (self.get(st, k, "s") or ("rep",)) + ("",) + tuple(reversed(l)))
            s.mem[d] = I(len(l))
            return out(None, s)
        if f == "map_string_id":
            i, n = self.num(ai, st, args[1]), st.mem.get(d)
            if i is None:
                return None
            i &= 0xffffffff
            n = n[1] if n is not None else 0
            if i - self.base > n or not n or i and i <= self.base:
                self.wrong(inst, "string id %d is mapped by a table of %d strings%s" % (i, self.base + n, "" if n else ", which were not stored yet"))
            return out(I(2 * self.base + n + 1 - i if i else 0))
        return None

    def zlib(self, ai, st, inst, b, args, where):
        z = ai.addr(args[0])
        if z is None:
            return None
        at = lambda o: st.mem.get((z[0], z[1] + o))
        live = (self.mb(z), "live")
        s = st.copy()
        if b.startswith("deflateInit"):
            if st.mem.get(live) == I(1):
                self.wrong(inst, "a compression stream is set up again")
            s = self.ev(st, "zinit")
            s.mem[live], s.mem[(z[0], z[1] + 16)], s.mem[(z[0], z[1] + 40)] = I(1), I(0), I(0)
            f = self.fail(st, b, where)
            return [("ret", I(0), s)] + ([("ret", I(-4), f)] if f is not None else [])
        if st.mem.get(live) != I(1):
            self.wrong(inst, "%s of a compression stream that %s" % (b, "was ended" if live in st.mem else "was not set up"))
        if b == "deflateEnd":
            s = self.ev(st, "zend")
            s.mem[live] = I(0)
            f = self.fail(s, b, where)
            return [("ret", I(0), s)] + ([("ret", I(-3), f)] if f is not None else [])
        if self.num(ai, st, args[1]) != 4:
            return None
        p, n, o, room = at(0), at(8), at(24), at(32)
        t = self.text(ai, st, p) if p is not None else None
        n = None if n is None else self.num(ai, st, n)
        d = ai.addr(o) if o is not None else None
        if t is None or n is None or d is None or room is None:
            return None
        full = t[:n & 0xffffffff]
        if full not in self.zips:
            self.zips[full] = chr(BASE + 0x8000 + len(self.zips))
        q = self.zips[full] * 19
        s.mem[d] = S(q)
        s.mem[(z[0], z[1] + 40)] = I(19)
        f = self.fail(st, "deflate", where)
        if f is not None:
            f.mem[d] = S(q[:7])
            f.mem[(z[0], z[1] + 40)] = I(7)
        return [("ret", I(1), s)] + ([("ret", I(0), f)] if f is not None else [])

    def write(self, ai, st, inst, args, where):
        fd, n = self.num(ai, st, args[0]), self.num(ai, st, args[2])
        if fd is None or n is None or n < 0:
            return None
        if fd > 2 and st.mem.get((obj("fd"), fd)) != I(1):
            self.wrong(inst, "write to a descriptor that %s" % ("was closed" if (obj("fd"), fd) in st.mem else "was not opened"))
        t = self.text(ai, st, args[1])
        if t is None:
            a, b = ai.addr(args[1]), []
            c = st.mem.get((a[0], a[1] // 4 * 4)) if a and isinstance(a[1], int) else None
            if c is None or c[0] != "i":
                return None
            b = list((c[1] & 0xffffffff).to_bytes(4, "little"))[a[1] % 4:]
        else:
            b = [ord(c) for c in t[:n]]
        if len(b) < n:
            self.wrong(inst, "writes %d bytes of a buffer of %d" % (n, len(b)))
        out = [("ret", I(n), self.ev(st, "write", fd, tuple(b[:n])))]
        if self.shorts and n > 1 and not any(x[0] == "short" for x in st.auto):
            out.append(("ret", I(1), self.event(self.ev(st, "short", where), ("write", fd, tuple(b[:1])))[0][2]))
        f = self.fail(st, "write", where)
        return out + ([("ret", I(-1), f)] if f is not None else [])

    def no_havoc(self, ai, st, addr, inst):
        return (ai.m.base(inst) or "").startswith(("deflate", "google::protobuf", "OSMPBF")) or "OSMPBF::" in (ai.m.base(inst) or "") or Xml.no_havoc(self, ai, st, addr, inst)


class Bad(Exception):
    pass


def stream(ev):
    """what was written: [(fd, unit), …]"""
    return [(e[1], u) for e in ev if e[0] == "write" for u in e[2]]


def blobs(w, ev):
    """the blocks written: [(type, kind of block, tree, compressed)]"""
    u = [x for _, x in stream(ev)]
    out, i = [], 0

    def whole(what, n=None):
        nonlocal i
        if i >= len(u):
            raise Bad("the file ends where %s is expected" % what)
        c = chr(u[i]) if u[i] >= BASE else None
        if c not in w.trees:
            raise Bad("%s is expected, something else is written" % what)
        ty, t = w.trees[c]
        k = SIZES.get(ty, 29)
        if u[i:i + k] != [u[i]] * k:
            raise Bad("%s is incomplete" % what)
        i += k
        if n is not None and n != k:
            raise Bad("the size written for %s is %d, it has %d bytes" % (what, n, k))
        return ty, dict(t)
    while i < len(u):
        if i + 4 > len(u) or any(x > 255 for x in u[i:i + 4]):
            raise Bad("the size of a blob header is expected, something else is written")
        n = int.from_bytes(bytes(u[i:i + 4]), "big")
        i += 4
        ty, h = whole("a blob header", n)
        if ty != "BlobHeader":
            raise Bad("a %s is written as blob header" % ty)
        ty, b = whole("a blob", h.get("datasize"))
        if ty != "Blob":
            raise Bad("a %s is written as blob" % ty)
        kind = h.get("type") or [v for k, v in h.items() if k.startswith("@")][:1]
        kind = kind if isinstance(kind, str) else kind[0] if kind else None
        if ("raw" in b) == ("zlib_data" in b):
            raise Bad("a blob has %s" % ("no data" if "raw" not in b else "data twice"))
        d = b.get("raw")
        if d is None:
            z = b["zlib_data"]
            src = [t for t, c in w.zips.items() if z and c == z[0]]
            if not src or len(z) != 19 or z != z[0] * 19:
                raise Bad("the compressed data of a blob are not those of a block")
            d = src[0]
        c = d[:1]
        if c not in w.trees or d != c * len(d) or len(d) != SIZES[w.trees[c][0]]:
            raise Bad("a blob does not hold one complete block")
        if "zlib_data" in b and b.get("raw_size") != len(d):
            raise Bad("the size of the uncompressed data is %s, it is %d" % (b.get("raw_size"), len(d)))
        out.append((kind, w.trees[c][0], w.trees[c][1], "zlib_data" in b))
    return out


class PbfWriter(Writer):
    pass
