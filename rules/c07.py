"""The PBF reader is interpreted abstractly, with and without assertions, over files in which sizes, indexes and array lengths are
hostile: every read, decompression and parse stays inside the buffer it is given, every element accessor inside the array of the
message, and a file that breaks the format in one of these ways ends with an exception. Nothing is executed."""
import itertools
from ir import translate, AnalysisBroken
from absint import Hooks, AbsInt, St, I, Undecided, path_lines
from scenario import obj
from orders import sgn
from rules.c08 import types
from rules.c13 import cell_of
from rules.handlers import site

F, PROBE = obj("F"), obj("PROBE")
MAXHEAD, MAXBLOB = 64 * 1024, 32 * 1024 * 1024
UNSIGNED = {"Way": ("keys", "vals"), "Node": ("keys", "vals"), "Relation": ("keys", "vals"), "Info": ("user_sid",)}
ONE = {"granularity": 100, "date_granularity": 1000, "version": -1}
HOST = ("Blob", "BlobHeader", "PrimitiveBlock", "HeaderBlock")
SUBS = {"stringtable", "info", "dense", "denseinfo", "bbox"}


class Host(Hooks):
    concrete = True

    def __init__(self, ctx, m, what, file, region, short=False, strlen=(1,)):
        self.ctx, self.m, self.what, self.file, self.region, self.short, self.strlen = ctx, m, what, file, region, short, strlen
        self.asserts = {}
        self.bad, self.unclear, self.elements, self.ends = {}, set(), set(), set()

    # ---- reports -----------------------------------------------------------
    def wrong(self, ai, st, inst, what):
        self.bad.setdefault((what, ai.m.loc(inst)), path_lines(ai, st))

    def doubt(self, inst, what):
        self.unclear.add("%s (%s)" % (what, self.m.loc(inst)))

    # ---- arithmetic ---------------------------------------------------------
    def arith(self, ai, st, inst, op, a, b):
        if b is None:
            return a if a[0] == "i" and op == "sext" else None
        ty = ai.m.strs[inst.d["ty"]]
        if a[0] == "i" and b[0] == "i" and ty[0] == "i" and ty[1:].isdigit() and ty != "i1":
            w, x, y = int(ty[1:]), a[1], b[1]
            ux, uy = x % (1 << w), y % (1 << w)
            if op in ("sdiv", "udiv", "srem", "urem") and y == 0:
                self.wrong(ai, st, inst, "a number is divided by zero")
                return None
            f = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: ux & uy, "or": lambda: ux | uy, "xor": lambda: ux ^ uy,
                 "shl": lambda: ux << uy if uy < w else None, "lshr": lambda: ux >> uy, "ashr": lambda: x >> uy,
                 "sdiv": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), "udiv": lambda: ux // uy,
                 "srem": lambda: abs(x) % abs(y) * (-1 if x < 0 else 1), "urem": lambda: ux % uy}.get(op)
            n = f and f()
            return None if n is None else I(sgn(n % (1 << w), w))
        return None

    def order(self, ai, st, pred, a, b):
        for x, y in ((a, b), (b, a)):
            if y == I(0) and pred in ("eq", "ne") and x[0] == "s" and isinstance(x[1], tuple) and x[1][0] in ("pb", "rep", "text", "arg"):
                return pred == "ne"
        return None

    def may_throw(self, ai, inst, name):
        return False

    def no_havoc(self, ai, st, addr, inst):
        n = ai.m.base(inst) or ""
        return n.startswith(("OSMPBF::", "google::", "Probe::", "__cxa", "std::runtime_error"))

    # ---- the input ----------------------------------------------------------
    def room(self, v):
        """(bytes before the end of the object, its name) an address may be used with"""
        if v[0] != "p":
            return None
        root, off = v[1], v[2]
        if root == self.reader:
            for n, o, s in self.region:
                if o <= off < o + s:
                    return o + s - off, n
            return 0, "the reader"
        if root in self.allocas:
            return self.allocas[root] - off, "a local buffer"
        return None

    def call(self, ai, st, inst, name, args):
        b = name or ""
        short = b.split("::")[-1].replace("[abi:cxx11]", "")
        c = lambda k: ai.const_of(st, args[k]) if k < len(args) else None
        if b.startswith("__assert_fail"):
            self.asserts.setdefault(ai.m.loc(inst), path_lines(ai, st))
            return [("throw", "assert", st)]
        if b in ("abort", "std::terminate", "exit", "quick_exit", "raise"):
            self.wrong(ai, st, inst, "the program ends")
            return []
        if b.startswith("Probe::"):
            return [("ret", None, st)]
        if b in ("open", "open64"):
            return [("ret", I(17), st)]
        if b in ("fork", "vfork"):
            return [("ret", I(4711), st)]
        if b in ("pipe", "pipe2"):
            a, n = ai.addr(args[0]), st.copy()
            ai.clear(n, a[0], a[1], a[1] + 8)
            n.mem[a], n.mem[(a[0], a[1] + 4)] = I(40), I(41)
            return [("ret", I(0), n)]
        if b in ("waitpid", "wait4"):
            a, n = ai.addr(args[1]), st.copy()
            ai.clear(n, a[0], a[1], a[1] + 4)
            n.mem[a] = I(0)
            return [("ret", I(4711), n)]
        if b == "close":
            return [("ret", I(0), st)]
        if b == "strlen":
            v = args[0]
            if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "text":
                return [("ret", I(k), st.copy()) for k in self.strlen]
            return None
        if b == "read":
            return self.read(ai, st, inst, args, c(2))
        if b in ("uncompress", "uncompress2"):
            return self.unpack(ai, st, inst, args)
        if short in ("ParseFromArray", "ParsePartialFromArray"):
            return self.parse(ai, st, inst, args, c(2))
        if "Parse" in short and "google" in b:
            self.doubt(inst, "a message is parsed from something else than an array")
        if b.startswith("OSMPBF::"):
            return self.accessor(ai, st, inst, b.split("::")[-2], short, args)
        if "RepeatedField" in b or "RepeatedPtrField" in b:
            return self.repeated(ai, st, inst, short, args)
        if b.startswith("std::pair<void const*, unsigned long>::pair<") and len(args) == 3:
            d, n = ai.addr(args[0]), st.copy()
            # the first is a reference to an array or to a pointer
            x = args[1] if "[" in b.split("::pair<")[-1].split(",")[0] else st.mem.get(ai.addr(args[1]))
            y = st.mem.get(ai.addr(args[2]))
            if d and x and y:
                ai.clear(n, d[0], d[1], d[1] + 16)
                n.mem[d], n.mem[(d[0], d[1] + 8)] = x, y
                return [("ret", None, n)]
        v = args[0] if args else ("u",)
        if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "text":
            t = self.at(v[1][1])
            if short in ("data", "c_str"):
                return [("ret", v, st)]
            if short in ("size", "length"):
                return [("ret", I(t[1] if isinstance(t, tuple) else len(t)), st)]
            if short == "empty":
                return [("ret", I(int(not (t[1] if isinstance(t, tuple) else len(t)))), st)]
        if ("operator==" in b or "operator!=" in b or short == "compare") and len(args) > 1:
            x = self.at(v[1][1]) if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "text" else None
            y = ai.m.cstr(inst.args[1])
            if isinstance(x, str) and y is not None:
                return [("ret", I(int(x != y) if short == "compare" or "!=" in b else int(x == y)), st)]
        return None

    # auto = (block, stage, position, short reads used, messages)
    def read(self, ai, st, inst, args, n):
        blk, stage, pos, used = st.auto
        r = self.room(args[1])
        if n is None or r is None:
            self.doubt(inst, "what is read is not known")
            return None
        self.elements.add((ai.fn.name, inst.id))
        if n < 0 or n > r[0]:
            self.wrong(ai, st, inst, "up to %s bytes are read into %d bytes of %s" % (n if n >= 0 else "2^64%d" % n, r[0], r[1]))
            return []
        if n == 0:
            return [("ret", I(0), st)]
        if blk >= len(self.file):
            return [("ret", I(0), st)]
        if stage == "size":
            out = []
            for k in sorted({n, 1} if self.short and not used else {n}):
                if pos + k > 4:
                    self.doubt(inst, "more than the size of a block is read")
                    return None
                s = st.copy()
                a = ai.addr(args[1])
                ai.clear(s, a[0], a[1], a[1] + k)
                for q, x in enumerate(self.file[blk]["word"][pos:pos + k]):
                    s.mem[(a[0], a[1] + q)] = I(sgn(x, 8))
                s.auto = (blk, stage, pos + k, used or k != n) if pos + k < 4 else (blk, "body", 0, used or k != n)
                out.append(("ret", I(k), s))
            return out
        out = []
        for k in sorted({n, n // 2 or 1} if self.short and not used and n > 1 else {n}):
            s = st.copy()
            s.auto = (blk, stage, pos, used or k != n)
            out.append(("ret", I(k), s))
        return out

    def parse(self, ai, st, inst, args, n):
        blk, stage, pos, used = st.auto
        r, self_ = self.room(args[1]), args[1]
        if self_[0] == "s" and isinstance(self_[1], tuple) and self_[1][0] == "text":
            t = self.at(self_[1][1])
            r = (t[1] if isinstance(t, tuple) else len(t)), "a string"
        if n is None or r is None:
            self.doubt(inst, "what is parsed is not known")
        elif n < 0 or n > r[0]:
            self.wrong(ai, st, inst, "%d bytes are parsed from %d bytes of %s" % (n, r[0], r[1]))
            return []
        self.elements.add((ai.fn.name, inst.id))
        s = st.copy()
        s.auto = (blk, "body", pos + 1, used) if pos < 2 else (blk + 1, "size", 0, used)
        return [("ret", I(1), s)]

    def unpack(self, ai, st, inst, args):
        a = ai.addr(args[1])
        cap = st.mem.get(a) if a else None
        cap = ai.const_of(st, cap) if cap else None
        r = self.room(args[0])
        if cap is None or r is None:
            self.doubt(inst, "what is decompressed is not known")
            return None
        self.elements.add((ai.fn.name, inst.id))
        if cap % (1 << 64) > r[0]:
            self.wrong(ai, st, inst, "up to %d bytes are decompressed into %d bytes of %s" % (cap % (1 << 64), r[0], r[1]))
            return []
        n = ai.const_of(st, args[3])
        t = args[2]
        if t[0] == "s" and isinstance(t[1], tuple) and t[1][0] == "text":
            t = self.at(t[1][1])
            if n is None or n < 0 or n > t[1]:
                (self.doubt(inst, "what is decompressed is not known") if n is None else self.wrong(ai, st, inst, "%d bytes are decompressed from %d bytes" % (n, t[1])))
        return [("ret", I(0), st)]

    # ---- messages ---------------------------------------------------------
    def at(self, path):
        v = self.file[0]
        for p in path:
            if v is None:
                return None
            v = v[p] if isinstance(v, list) else v.get(p)
        return v

    def value(self, path):
        v = self.at(path)
        if isinstance(v, bool) or isinstance(v, int):
            return I(v)
        if isinstance(v, (dict,)):
            return ("s", ("pb", path))
        if isinstance(v, list):
            return ("s", ("rep", path))
        return ("s", ("text", path))

    def element(self, ai, st, inst, path, n):
        l = self.at(path) or []
        name = ".".join(str(x) for x in path if isinstance(x, str))
        if n is None:
            self.doubt(inst, "the index of an element of %s is not known" % name)
            return None
        self.elements.add((ai.fn.name, inst.id))
        if not 0 <= n < len(l):
            self.wrong(ai, st, inst, "element %d of the %d elements of %s is used" % (n, len(l), path[-1] if path[-1] != "s" else "the string table"))
            return []
        return [("ret", self.value(path + (n,)), st)]

    def accessor(self, ai, st, inst, cls, f, args):
        v = args[0]
        if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "pb":
            path = v[1][1]
        elif cls in HOST:
            path = (cls,)
        else:
            if cls[0].isupper() and cls not in HOST and not f.startswith(("~", cls)):
                self.doubt(inst, "a %s from an unknown place is used" % cls)
            return None
        c = lambda k: ai.const_of(st, args[k]) if k < len(args) else None
        msg = self.at(path)
        if not isinstance(msg, dict):
            msg = {}
        if f.startswith("has_"):
            return [("ret", I(int(f[4:] in msg)), st)]
        if f.endswith("_size") and f not in msg:
            l = msg.get(f[:-5], [])
            return [("ret", I(len(l)), st)]
        if f in ("Clear", "CopyFrom", "Swap", "MergeFrom") or f.startswith(("~", cls, "mutable_", "set_", "add_")):
            return None
        if len(args) > 1 and (f not in msg or isinstance(msg[f], list)):
            return self.element(ai, st, inst, path + (f,), c(1))
        if f in msg or f in SUBS:
            return [("ret", self.value(path + (f,)) if f in msg else ("s", ("pb", path + (f,))), st)]
        if f in ("raw", "zlib_data", "lzma_data", "type", "writingprogram", "source"):
            return [("ret", ("s", ("text", path + (f,))), st)]
        if "ty" in inst.d and ai.m.strs[inst.d["ty"]] == "ptr":
            return [("ret", ("s", ("rep", path + (f,))), st)]
        return [("ret", I(ONE.get(f, 0)), st)]

    def repeated(self, ai, st, inst, f, args):
        v = args[0]
        if not (v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "rep"):
            return None
        path = v[1][1]
        if f in ("size",):
            return [("ret", I(len(self.at(path) or [])), st)]
        if f in ("Get", "operator[]", "at"):
            return self.element(ai, st, inst, path, ai.const_of(st, args[1]))
        self.doubt(inst, "elements are used through %s" % f)
        return None

    def exit(self, ai, st, how, kind, inst):
        if ai.name is None:
            self.ends.add(how)
            if how == "ret":
                self.normal = path_lines(ai, st)

    def key(self, ai, st):
        return None


# ---- the files ------------------------------------------------------------
def word(n):
    return [(n >> s) & 255 for s in (24, 16, 8, 0)]


def data(group, strings=("", "a"), **more):
    return {"word": word(13), "BlobHeader": {"type": "OSMData", "datasize": 100}, "Blob": {"raw": ("bytes", 50)},
            "PrimitiveBlock": dict({"stringtable": {"s": list(strings)}, "primitivegroup": [group]}, **more)}


def ent(kind, **kw):
    d = {"id": 17, "info": {"version": 3, "changeset": 5, "timestamp": 7, "uid": 9, "user_sid": 1}, "keys": [1, 0], "vals": [0, 1]}
    if kind == "ways":
        d["refs"] = [1, 2]
    elif kind == "nodes":
        d.update(lat=5, lon=6)
    else:
        d.update(memids=[3, -1], types=[0, 2], roles_sid=[1, 0])
    d.update(kw)
    return {k: v for k, v in d.items() if v is not None}


def dense(info=True, **kw):
    d = {"id": [5, 1, 1], "lat": [1, 2, 3], "lon": [4, 5, 6], "keys_vals": [1, 0, 0, 1, 1, 1, 1, 0, 0]}
    i = {"version": [1, 2, 3], "timestamp": [1, 1, 1], "changeset": [2, 2, 2], "uid": [3, 3, 3], "user_sid": [0, 1, -1], "visible": [1, 0, 1]}
    for k, v in kw.items():
        (i if k in i else d)[k] = v
    if info:
        d["denseinfo"] = {k: v for k, v in i.items() if v is not None}
    return {"dense": {k: v for k, v in d.items() if v is not None}}


def files(thorough):
    """(name, file, must it be refused?)"""
    u32 = [2, 3, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
    i32 = [2, 3, 0x7fffffff, -0x80000000, -2, -1]
    for kind in ("nodes", "ways", "relations"):
        grp = lambda *e: {kind: list(e)}
        yield "plain " + kind, data(grp(ent(kind), ent(kind))), False
        yield kind + " without anything", data(grp({"id": 1}, {})), False
        yield "no strings for the user of " + kind, data(grp(ent(kind, keys=[], vals=[], **({"types": []} if kind == "relations" else {}))), strings=()), True
        for a in ("keys", "vals"):
            for v in u32:
                for l in ([v, 0], [0, v]):
                    yield "%s of %s that are not in the string table" % (a, kind), data(grp(ent(kind, **{a: [sgn(x, 32) for x in l]}))), True
        for v in u32:
            yield "user of %s that is not in the string table" % kind, data(grp(ent(kind), ent(kind, info={"user_sid": sgn(v, 32)}))), True
        for n in range(4):
            yield "%d values for 2 keys of %s" % (n, kind), data(grp(ent(kind, vals=[0] * n or None))), n < 2
            yield "%d keys for 2 values of %s" % (n, kind), data(grp(ent(kind, keys=[0] * n or None))), n > 2
        if kind == "relations":
            for a in ("memids", "roles_sid"):
                for n in range(4):
                    yield "%d %s for 2 members" % (n, a), data(grp(ent(kind, **{a: [0] * n or None}))), n < 2
            for n in range(4):
                yield "%d types for 2 members" % n, data(grp(ent(kind, types=[1] * n or None))), n > 2
            for v in i32:
                for l in ([v, 0], [0, v]):
                    yield "role that is not in the string table", data(grp(ent(kind, roles_sid=l))), True
            for v in (3, 7, -1):
                yield "member of unknown type", data(grp(ent(kind, types=[v, 0]))), None
        for f, l in (("id", (0, -1, 2 ** 63 - 1, -2 ** 63)),) + ((("refs", ([2 ** 63 - 1, 2 ** 63 - 1], [-2 ** 63, -1])),) if kind == "ways" else (("memids", ([2 ** 63 - 1, 2 ** 63 - 1],)),) if kind == "relations" else (("lat", (2 ** 63 - 1, -2 ** 63)), ("lon", (2 ** 63 - 1,)))):
            for v in l:
                yield "extreme %s of %s" % (f, kind), data(grp(ent(kind, **{f: v}))), None
        for i in ({"timestamp": 2 ** 63 - 1}, {"timestamp": -2 ** 63}, {"uid": -2 ** 31}, {"version": -2 ** 31}, {"changeset": 2 ** 63 - 1}):
            yield "extreme information of " + kind, data(grp(ent(kind, info=i))), None
    yield "plain dense nodes", data(dense()), False
    yield "dense nodes without information", data(dense(info=False)), False
    yield "dense nodes without tags", data(dense(keys_vals=None)), False
    yield "dense nodes without visibility", data(dense(visible=None)), False
    yield "no dense nodes", data({"dense": {}}), False
    yield "no strings for dense nodes", data(dense(keys_vals=None), strings=()), True
    for a in ("lat", "lon", "version", "timestamp", "changeset", "uid", "user_sid", "visible"):
        for n in (0, 1, 2, 4):
            if n or a != "visible":
                yield "%d %s for 3 dense nodes" % (n, a), data(dense(**{a: [0] * n or None})), n < 3
    for n in (0, 2, 4):
        yield "%d ids for 3 dense nodes" % n, data(dense(id=[1] * n or None)), n > 3
    for v in i32:
        for l in ([v, 0, 0], [0, 0, v]):
            yield "user of dense nodes that is not in the string table", data(dense(user_sid=l)), True
        for l in ([v, 0, 0], [0, v, 0], [1, v, 0, 0, 1, 1, 0], [0, 0, v, 1], [0, 0, 1, v], [1, 1, v, 1, 0]):
            yield "tag of dense nodes that is not in the string table", data(dense(keys_vals=l)), True if v not in (0,) else None
    for l in ([0x7fffffff, 0x7fffffff, 2], [1, 1, 0], [0, -1, 1], [1, -2, 1], [-0x80000000, -0x80000000, 0]):
        yield "users of dense nodes that add up to one that is not in the string table", data(dense(user_sid=l)), True
    for l in ([1], [0, 1], [0, 0, 1], [1, 1, 1], [0, 1, 1, 1], [0, 0, 1, 1, 1]):
        yield "key without a value at the end of dense nodes", data(dense(keys_vals=l)), True
    for l in ([0], [0, 0], [1, 1], [0, 1, 1], [0, 0, 1, 1], [0] * 7):
        yield "tags of dense nodes of another length", data(dense(keys_vals=l)), None
    for a, l in (("id", [2 ** 63 - 1] * 3), ("lat", [2 ** 63 - 1] * 3), ("lon", [-2 ** 63] * 3), ("timestamp", [2 ** 63 - 1] * 3), ("changeset", [-2 ** 63] * 3), ("uid", [2 ** 31 - 1] * 3), ("version", [-2 ** 31] * 3)):
        yield "extreme %s of dense nodes" % a, data(dense(**{a: l})), None
    for more in ({"granularity": 0}, {"granularity": -1}, {"date_granularity": 0}, {"date_granularity": -2 ** 31}, {"granularity": 2 ** 31 - 1}):
        for g in (dense(), {"nodes": [ent("nodes")]}, {"ways": [ent("ways")]}):
            yield "unusual granularity", data(g, **more), None
    yield "group without objects", data({}), None
    f = data({})
    f["PrimitiveBlock"]["primitivegroup"] = []
    yield "block without groups", f, False


def sizes(thorough):
    far = [0x7fffffff, -1, -2, -0x80000000, -0x7fffffff, -MAXBLOB]
    ok = dense(info=False, keys_vals=None)
    for n in [0, 1, 13, MAXHEAD - 1, MAXHEAD] + [MAXHEAD + 1, 2 ** 24, MAXBLOB, MAXBLOB + 1] + far:
        f = data(ok)
        f["word"] = word(n % (1 << 32))
        yield "header of %d bytes" % n, f, not 0 <= n <= MAXBLOB, n
    for n in [0, 1, 100, MAXBLOB - 1, MAXBLOB, MAXBLOB + 1, MAXBLOB + 4, 2 * MAXBLOB, 2 ** 30] + far:
        f = data(ok)
        f["BlobHeader"]["datasize"] = n
        yield "blob of %d bytes" % n, f, not 0 <= n <= MAXBLOB, n
        f = data(ok)
        f["Blob"] = {"raw_size": n, "zlib_data": ("bytes", 40)}
        yield "%d bytes of compressed data" % n, f, not 0 <= n <= MAXBLOB, n
    for n in (0, 1, MAXBLOB):
        f = data(ok)
        f["Blob"] = {"raw": ("bytes", n), "raw_size": 5}
        yield "%d bytes of raw data" % n, f, False, n
    f = data(ok)
    f["Blob"] = {"zlib_data": ("bytes", 40)}
    yield "compressed data of unknown size", f, None, 0
    h = {"word": word(13), "BlobHeader": {"type": "OSMHeader", "datasize": 9}, "Blob": {"raw": ("bytes", 50)},
         "HeaderBlock": {"required_features": ["OsmSchema-V0.6", "DenseNodes"], "optional_features": ["x"], "writingprogram": "w", "bbox": {"left": -2 ** 63, "right": 2 ** 63 - 1, "top": 2 ** 63 - 1, "bottom": 0}}}
    yield "file with a header only", h, False, 0


def run(ctx):
    ctx.rules = ["reads, decompression and parsing stay inside the buffer they are given", "element accessors stay inside the array of the message", "hostile files end with an exception, never with an assertion"]
    ctx.assumptions = ["protobuf's own decoding is safe", "the arrays and strings of a message are those its accessors report", "arithmetic wraps around"]
    for ndebug in (True, False):
        m = translate("input.cpp", ndebug=ndebug)
        one(ctx, m, "without assertions" if ndebug else "with assertions")
    ctx.at_least("files followed", 400)
    ctx.at_least("places where sizes or elements are used", 30)


def one(ctx, m, mode):
    ts, glob = types(m)
    o = cell_of(m, m.fn("drv_get_type"))
    cls = [t for n, t in m.types.items() if n.startswith("Osmium::Input::PBF<Probe")]
    if o is None or not cls:
        raise AnalysisBroken("the reader cannot be found")
    region = [(x[1], x[2], x[3]) for x in cls[0]["members"] if x[0] == "member"]
    fn = m.fn("drv_pbf")
    allocas = {("alloca", i.id): i.d.get("size") for b in fn.blocks for i in b if i.op == "alloca"}
    readers = [k for k, s in allocas.items() if s == int(cls[0]["size"])]
    if len(readers) != 1:
        raise AnalysisBroken("the reader cannot be found")
    good, used, vague = 0, set(), set()
    todo = [(n, f, bad, None) for n, f, bad in files(ctx.thorough)] + [(n, f, bad, True) for n, f, bad, _ in sizes(ctx.thorough)]
    for name, f, bad, short in todo:
        h = Host(ctx, m, name, [f], region, short=short, strlen=(1, 300) if "plain" in name else (1,))
        h.reader, h.allocas = readers[0], {k: v for k, v in allocas.items() if v and k != readers[0]}
        ai = AbsInt(m, fn, h, args=[F, PROBE], fold_small=True)
        s = St()
        s.mem = dict(glob)
        s.mem[(F, o)] = ts["OSM"]
        s.auto = (0, "size", 0, False)
        try:
            ai.run(s)
        except Undecided as e:
            ctx.count("undecided: %s" % e)
            continue
        ctx.count("files followed")
        ctx.count("abstract states", ai.nstates)
        used |= h.elements
        if name.startswith("plain"):
            vague |= set(h.asserts)  # depends on something that is not modelled
        for l in set(h.asserts) - vague:
            h.bad[("an assertion fails", l)] = h.asserts[l]
        for (what, loc), p in h.bad.items():
            ctx.require(False, "%s:%s" % (what, loc), "%s: %s (%s; %s)" % (name, what, loc, mode), ["path: " + " > ".join(p)])
        if not h.bad:
            ctx.require(True, "", "")
        if h.unclear:
            for u in h.unclear:
                ctx.count("undecided: " + u)
        elif bad and "ret" in h.ends:
            ctx.require(False, "accepted:" + name, "%s: reading ends normally (%s)" % (name, mode), ["path: " + " > ".join(h.normal)])
        elif bad:
            ctx.require(True, "", "")
        good += bad is False and "ret" in h.ends
    ctx.count("well-formed files read", good)
    ctx.count("places where sizes or elements are used", len(used))
