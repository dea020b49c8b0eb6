"""Every store indexed by id is interpreted abstractly through sequences of set, lookup, clear and destruction. Memory obtained
from malloc, mmap and mremap is a region with a size and a life time, the backing file has a size; ids stand for every relation
to the capacity (inside, at it, far beyond, beyond everything that can be mapped); every system call may fail once. Each access
is compared with the region it goes to, each lookup with what was stored. Nothing is executed."""
import re
from ir import translate, FOREACH, STDFN, strip_templates, Undecided
from absint import I
from scenario import obj
from seqs import Seqs, ITERS, Outside
from strings import S
from rules.handlers import site
from rules.lists import run_fn

X, FILE = obj("X"), obj("FILE")
ALSO = (FOREACH, STDFN) + ITERS + (r"std::(lower_bound|__lower_bound|upper_bound|__upper_bound|distance|advance|__distance|__advance|__iterator_category|make_pair|forward|move)<",
                                  r"__gnu_cxx::__ops::", r"^std::_Rb_tree(_const)?_iterator<[^()]*>::", r"^std::pair<[^()]*>::pair", r"std::operator[=!]=\(std::_Rb_tree")
MAP = re.compile(r"^(?:.*[ &*])?std::map<.*>::(~?\w+|operator\W+)(?:<.*>)?$")
SPARSE = "google::sparsetable::"
PAGE = 4096
HUGE = 1 << 47
U64 = (1 << 64) - 1
MISSING = "missing"


def up(n):
    return (n + PAGE - 1) // PAGE * PAGE


def reg(name):
    return obj("reg:" + name)


class Mem(Seqs):
    """regions of memory, the backing file, maps and sparse tables"""
    esz = 8

    def __init__(self, m):
        Seqs.__init__(self, m)
        self.kinds = {}

    def esize(self, ty):
        return self.m.types[ty.strip()]["size"] if ty.strip() in self.m.types else Seqs.esize(self, ty)

    # ---- regions ----------------------------------------------------
    def region(self, st, b):
        """(kind, size, live) of the region with base b"""
        n = b[1][1] if b[0] == "s" and isinstance(b[1], tuple) and b[1][0] == "arg" else None
        if n not in self.kinds:
            return None
        r = reg(n)
        return self.kinds[n], st.mem[(r, 0)][1], st.mem[(r, 8)][1]

    def make(self, ai, st, inst, kind, size):
        used = sum(1 for k in st.mem if k[0][0] == "s" and isinstance(k[0][1], tuple) and str(k[0][1][1]).startswith("reg:") and k[1] == 0)
        n = "R%d" % used
        self.kinds[n] = kind
        s = st.copy()
        s.mem[(reg(n), 0)], s.mem[(reg(n), 8)] = I(size), I(1)
        return obj(n), s

    def failing(self, st, what):
        """the same with a call that failed, unless one has failed already"""
        if any(x[0] == "fail" for x in st.auto or ()):
            return None
        n = st.copy()
        n.auto = (st.auto or ()) + (("fail", what),)
        return n

    def dead(self, st, inst, b, size, how, kinds):
        """the region is given back"""
        r = self.region(st, b[0]) if b and b[1] == 0 else None
        if r is None:
            self.wrong(inst, "%s something that was not obtained" % how)
        if r[2] != 1:
            self.wrong(inst, "%s the same memory again" % how)
        if r[0] not in kinds:
            self.wrong(inst, "%s memory obtained by another function" % how)
        if size is not None and up(size) != up(r[1]):
            self.wrong(inst, "%s %d bytes of a region of %d" % (how, size, r[1]))
        s = st.copy()
        s.mem[(reg(b[0][1][1]), 8)] = I(0)
        return s

    def live(self, st):
        return sorted(n for n in self.kinds if st.mem.get((reg(n), 8)) == I(1))

    def access(self, ai, st, inst, ptr, size, write):
        v = "writes" if write else "reads"
        if ptr[0] == "i":
            self.wrong(inst, "%s at %s, which is no object" % (v, "the null pointer" if 0 <= ptr[1] < 1 << 12 else "a failed mapping" if ptr[1] == -1 else "an offset from the null pointer"))
        a = ai.addr(ptr)
        r = self.region(st, a[0]) if a else None
        if r is not None:
            if r[2] != 1:
                self.wrong(inst, "%s memory that was given back" % v)
            if isinstance(a[1], int):
                if not 0 <= a[1] <= r[1] - size:
                    self.wrong(inst, "%s at offset %d of %d bytes" % (v, a[1], r[1]))
                if r[0] in ("shared", "private") and a[1] > st.mem[(FILE, 0)][1] - size:
                    self.wrong(inst, "%s at offset %d of a file of %d bytes" % (v, a[1], st.mem[(FILE, 0)][1]))
        Seqs.access(self, ai, st, inst, ptr, size, write)

    def store(self, ai, st, inst, ptr, val):
        a = ai.addr(ptr)
        r = self.region(st, a[0]) if a else None
        if r is not None and r[0] == "shared" and isinstance(a[1], int):
            st.mem[(FILE, 16 + a[1])] = val

    def order(self, ai, st, pred, a, b):
        for x, y in ((a, b), (b, a)):
            if y[0] == "i" and y[1] in (0, -1) and x[0] == "s" and isinstance(x[1], tuple) and x[1][0] == "arg" and pred in ("eq", "ne"):
                return pred == "ne"
        return Seqs.order(self, ai, st, pred, a, b)

    def no_havoc(self, ai, st, addr, inst):
        return addr[0][0] == "s" and isinstance(addr[0][1], tuple) and addr[0][1][0] == "arg" and addr[0] != X or Seqs.no_havoc(self, ai, st, addr, inst)

    def intr(self, ai, st, inst, name, args):
        if name.startswith("llvm.is.constant"):
            return I(0)
        return Seqs.intr(self, ai, st, inst, name, args)

    def un(self, ai, st, v):
        n = self.num(ai, st, v)
        return None if n is None else n & U64

    # ---- calls ------------------------------------------------------
    def call(self, ai, st, inst, name, args):
        full = ai.m.callee(inst) or name or ""
        base = strip_templates(ai.m.base(inst) or name or "")
        f = getattr(self, "do_" + base.replace("64", ""), None) if re.match(r"\w+$", base) else None
        if f is not None:
            return f(ai, st, inst, args)
        from ir import strip_params
        k = MAP.match(strip_params(full))
        if k and args:
            return self.mapcall(ai, st, inst, k.group(1), full, args)
        if base.startswith(SPARSE):
            return self.sparse(ai, st, inst, base[len(SPARSE):], full, args)
        if base == "google::table_element_adaptor::operator=":
            a = ai.addr(args[0])
            i, v = (st.mem.get((a[0], a[1] + 8)), st.mem.get(ai.addr(args[1]))) if a else (None, None)
            if i is None or v is None:
                return None
            s = st.copy()
            s.mem[(obj("sp"), 8 + 8 * (i[1] & U64))] = v
            return [("ret", args[0], s)]
        f = inst.d.get("callee", {}).get("fn")
        if f in ai.m.fns and ai.depth() < 6:
            return ai.subcall(st, f, args, "v%s" % inst.id)
        if "libc_allocator_with_realloc::" in base:
            return [("ret", None, st)]
        return Seqs.call(self, ai, st, inst, name, args)

    def do_malloc(self, ai, st, inst, args):
        n = self.un(ai, st, args[0])
        if n is None:
            return None
        out = []
        f = st if n > HUGE else self.failing(st, "malloc")
        if f is not None:
            out.append(("ret", I(0), f))
        if n <= HUGE:
            p, s = self.make(ai, st, inst, "heap", n)
            out.append(("ret", p, s))
        return out

    def do_calloc(self, ai, st, inst, args):
        a, b = self.un(ai, st, args[0]), self.un(ai, st, args[1])
        r = None if a is None or b is None else self.do_malloc(ai, st, inst, [I(a * b)])
        for _, v, s in r or ():
            if v != I(0):
                s.mem[(v, ("z", 0, a * b))] = I(0)
        return r

    def do_realloc(self, ai, st, inst, args):
        n = self.un(ai, st, args[1])
        if n is None:
            return None
        if args[0] == I(0):
            return self.do_malloc(ai, st, inst, args[1:])
        out = []
        for how, v, s in self.do_malloc(ai, st, inst, args[1:]):
            if v != I(0):
                a = ai.addr(args[0])
                s = self.dead(s, inst, a, None, "reallocates", ("heap",))
                self.move(s, a[0], v, n)
            out.append((how, v, s))
        return out

    def move(self, st, old, new, size):
        for k, x in list(st.mem.items()):
            if k[0] == old and isinstance(k[1], int):
                if k[1] + 8 <= size:
                    st.mem[(new, k[1])] = x
                del st.mem[k]

    def do_free(self, ai, st, inst, args):
        if args[0] == I(0):
            return [("ret", None, st)]
        return [("ret", None, self.dead(st, inst, ai.addr(args[0]), None, "frees", ("heap",)))]

    def do_mmap(self, ai, st, inst, args):
        n, flags, fd = self.un(ai, st, args[1]), self.num(ai, st, args[3]), self.num(ai, st, args[4])
        if n is None or flags is None or fd is None:
            return None
        out = []
        never = n == 0 or n > HUGE
        f = st if never else self.failing(st, "mmap")
        if f is not None:
            out.append(("ret", I(-1), f))
        if never:
            return out
        kind = "anon" if flags & 0x20 else "shared" if flags & 3 in (1, 3) else "private"
        if kind != "anon":
            self.usefd(st, inst, fd, "maps")
        prot = self.num(ai, st, args[2])
        if prot is None:
            return None
        if prot & 3 != 3:
            self.wrong(inst, "maps memory that cannot be read and written")
        p, s = self.make(ai, st, inst, kind, n)
        if kind == "anon":
            s.mem[(p, ("z", 0, n))] = I(0)
        else:
            o = self.num(ai, st, args[5])
            if o is None:
                return None
            s.mem[(p, ("z", 0, n))] = I(0)
            for k, x in list(s.mem.items()):
                if k[0] == FILE and isinstance(k[1], int) and k[1] >= 16 + o:
                    s.mem[(p, k[1] - 16 - o)] = x
        out.append(("ret", p, s))
        return out

    def do_munmap(self, ai, st, inst, args):
        n = self.un(ai, st, args[1])
        if n is None:
            return None
        if n == 0:
            return [("ret", I(-1), st)]
        return [("ret", I(0), self.dead(st, inst, ai.addr(args[0]), n, "unmaps", ("anon", "shared", "private")))]

    def do_mremap(self, ai, st, inst, args):
        o, n, flags = self.un(ai, st, args[1]), self.un(ai, st, args[2]), self.num(ai, st, args[3])
        if o is None or n is None or flags is None:
            return None
        a = ai.addr(args[0])
        never = n == 0 or n > HUGE
        f = st if never else self.failing(st, "mremap")
        out = [("ret", I(-1), f)] if f is not None else []
        if never:
            return out
        s = self.dead(st, inst, a, o, "remaps", ("anon", "shared", "private"))
        p, s = self.make(ai, s, inst, self.kinds[a[0][1][1]], n)
        self.move(s, a[0], p, n)
        if self.kinds[a[0][1][1]] == "anon":
            s.mem[(p, ("z", 0, n))] = I(0)
        if flags & 1:
            out.append(("ret", p, s))
        return out

    def do_msync(self, ai, st, inst, args):
        return [("ret", I(0), st)]

    do_madvise = do_msync

    # ---- files ------------------------------------------------------
    def usefd(self, st, inst, fd, how):
        if st.mem.get((obj("fd"), fd)) != I(1):
            self.wrong(inst, "%s a file that is not open" % how)

    def newfd(self, st, what):
        out = []
        f = self.failing(st, what)
        if f is not None:
            out.append(("ret", I(-1), f))
        s = st.copy()
        fd = 3
        while s.mem.get((obj("fd"), fd)) == I(1):
            fd += 1
        s.mem[(obj("fd"), fd)] = I(1)
        return out, s, fd

    def do_open(self, ai, st, inst, args):
        out, s, fd = self.newfd(st, "open")
        fl = self.num(ai, st, args[1])
        if fl is None:
            return None
        if fl & 3 != 2:
            self.wrong(inst, "opens the file without permission to read and write it")
        if fl & 0x200:
            s.mem[(FILE, 0)] = I(0)
            for k in [k for k in s.mem if k[0] == FILE and isinstance(k[1], int) and k[1] >= 16]:
                del s.mem[k]
        return out + [("ret", I(fd), s)]

    def do_tmpfile(self, ai, st, inst, args):
        out, s, fd = self.newfd(st, "tmpfile")
        s.mem[(FILE, 0)] = I(0)
        s.mem[(obj("STDIO"), 0)] = I(fd)
        return [("ret", I(0), x[2]) for x in out] + [("ret", obj("STDIO"), s)]

    def do_fileno(self, ai, st, inst, args):
        return [("ret", st.mem.get((obj("STDIO"), 0), I(-1)), st)]

    def do_dup(self, ai, st, inst, args):
        fd = self.num(ai, st, args[0])
        if fd is None:
            return None
        self.usefd(st, inst, fd, "duplicates")
        out, s, n = self.newfd(st, "dup")
        return out + [("ret", I(n), s)]

    def do_close(self, ai, st, inst, args):
        fd = self.num(ai, st, args[0])
        if fd is None:
            return None
        self.usefd(st, inst, fd, "closes")
        s = st.copy()
        s.mem[(obj("fd"), fd)] = I(0)
        return [("ret", I(0), s)]

    def do_fclose(self, ai, st, inst, args):
        return self.do_close(ai, st, inst, [st.mem.get((obj("STDIO"), 0), I(-1))])

    def do_unlink(self, ai, st, inst, args):
        return [("ret", I(0), st)]

    do_remove = do_unlink

    def do_fstat(self, ai, st, inst, args):
        fd = self.num(ai, st, args[0])
        a = ai.addr(args[1])
        if fd is None or a is None:
            return None
        self.usefd(st, inst, fd, "asks for the size of")
        f = self.failing(st, "fstat")
        s = st.copy()
        ai.clear(s, a[0], a[1], a[1] + 144)
        s.mem[(a[0], a[1] + 48)] = st.mem[(FILE, 0)]
        return ([("ret", I(-1), f)] if f is not None else []) + [("ret", I(0), s)]

    def do_ftruncate(self, ai, st, inst, args):
        fd, n = self.num(ai, st, args[0]), self.num(ai, st, args[1])
        if fd is None or n is None:
            return None
        self.usefd(st, inst, fd, "changes the size of")
        never = n < 0 or n > HUGE
        f = st if never else self.failing(st, "ftruncate")
        out = [("ret", I(-1), f)] if f is not None else []
        if not never:
            s = st.copy()
            s.mem[(FILE, 0)] = I(n)
            for k in [k for k in s.mem if k[0] == FILE and isinstance(k[1], int) and k[1] - 8 > n]:
                del s.mem[k]
            out.append(("ret", I(0), s))
        return out

    # ---- std::map ---------------------------------------------------
    def mapcall(self, ai, st, inst, name, full, args):
        a = ai.addr(args[0])
        if a is None:
            return None
        if name == "map":
            s = st.copy()
            ai.clear(s, a[0], a[1], a[1] + 48)
            s.mem[a] = ("s", ("keys", ()))
            return [("ret", None, s)]
        c = st.mem.get(a)
        if c is None or c[0] != "s" or c[1][0] != "keys":
            return None
        keys = c[1][1]
        node = lambda k: obj("e%d" % k)
        end = ai.padd(args[0], 8)

        def key(k):
            v = st.mem.get(ai.addr(args[k])) if len(args) > k and ai.addr(args[k]) else None
            return v[1] & U64 if v is not None and v[0] == "i" else None

        def add(k, v):
            s = st.copy()
            s.mem[a] = ("s", ("keys", tuple(sorted(set(keys) | {k}))))
            s.mem[(node(k), 32)], s.mem[(node(k), 40)] = I(k if k < 1 << 63 else k - (1 << 64)), v
            return s
        val = lambda k: ai.padd(node(k), 40)
        if name == "~map":
            return [("ret", None, st)]
        if name in ("size", "empty"):
            return [("ret", I(len(keys) if name == "size" else int(not keys)), st)]
        if name == "clear":
            s = st.copy()
            s.mem[a] = ("s", ("keys", ()))
            for k in keys:
                ai.clear(s, node(k), 0, 64)
            return [("ret", None, s)]
        if name in ("end", "cend"):
            return [("ret", end, st)]
        if name in ("begin", "cbegin"):
            return [("ret", node(keys[0]) if keys else end, st)]
        k = key(1)
        if k is None:
            return None
        if name == "operator[]":
            return [("ret", val(k), st if k in keys else add(k, I(0)))]
        if name == "at":
            return [("ret", val(k), st)] if k in keys else [("throw", "_ZTISt12out_of_range", st)]
        if name in ("find", "count"):
            return [("ret", (node(k) if k in keys else end) if name == "find" else I(int(k in keys)), st)]
        if name in ("lower_bound", "upper_bound"):
            l = [x for x in keys if x > k or x == k and name[0] == "l"]
            return [("ret", node(l[0]) if l else end, st)]
        if name in ("insert", "emplace", "insert_or_assign", "try_emplace"):
            p = ai.addr(args[1])
            v = st.mem.get((p[0], p[1] + 8)) if len(args) == 2 else st.mem.get(ai.addr(args[2])) if ai.addr(args[2]) else None
            if v is None:
                return None
            s = add(k, v) if k not in keys or name == "insert_or_assign" else st
            return [("ret", ("agg", ("agg", ("u",), (0,), node(k)), (1,), I(int(k not in keys))), s)]
        if name == "erase":
            s = st.copy()
            s.mem[a] = ("s", ("keys", tuple(x for x in keys if x != k)))
            return [("ret", I(int(k in keys)), s)]
        return None

    # ---- google::sparsetable ----------------------------------------
    def sparse(self, ai, st, inst, name, full, args):
        d, s = obj("sp"), st.copy()
        size = st.mem.get((d, 0))
        n = size[1] if size is not None else None

        def cut(to):
            for k in [k for k in s.mem if k[0] == d and isinstance(k[1], int) and k[1] >= 8 + 8 * to]:
                del s.mem[k]
            s.mem[(d, 0)] = I(to)
        if name == "sparsetable":
            i = self.un(ai, st, args[1]) if len(args) > 1 else 0
            if i is None:
                return None
            cut(0)
            s.mem[(d, 0)] = I(i)
            return [("ret", None, s)]
        if n is None:
            return None
        if name == "~sparsetable":
            return [("ret", None, st)]
        if name == "clear":
            to = n
            cut(0)
            s.mem[(d, 0)] = I(to)           # the buckets are emptied, their number stays
            return [("ret", None, s)]
        if name == "size":
            return [("ret", I(n), st)]
        if name == "max_size":
            return [("ret", I((1 << 60) - 1), st)]
        if name == "empty":
            return [("ret", I(int(n == 0)), st)]
        i = self.un(ai, st, args[1]) if len(args) > 1 else None
        if i is None:
            return None
        if name == "resize":
            out = []
            f = st if i > HUGE else self.failing(st, "resize")
            if f is not None:
                if "libc_allocator" in full:            # which does not check what malloc() returns
                    self.wrong(inst, "writes through a null pointer when resized with an allocator that does not report failure")
                out.append(("throw", "_ZTISt9bad_alloc", f))
            if i <= HUGE:
                cut(i)
                out.append(("ret", None, s))
            return out
        if name in ("operator[]", "get", "set", "test", "erase", "unsafe_get", "mutating_get"):
            if i >= n:
                self.wrong(inst, "%s element %d of a table of %d" % ("writes" if name == "set" else "accesses", i, n))
            there = (d, 8 + 8 * i) in st.mem
            if name == "set":
                v = st.mem.get(ai.addr(args[2])) if ai.addr(args[2]) else None
                if v is None:
                    return None
                s.mem[(d, 8 + 8 * i)] = v
                return [("ret", ai.padd(d, 8 + 8 * i), s)]
            if name == "test":
                return [("ret", I(int(there)), st)]
            if name == "erase":
                s.mem.pop((d, 8 + 8 * i), None)
                return [("ret", None, s)]
            if name == "operator[]" and "const" != full[-5:]:
                return [("ret", ("agg", ("agg", ("u",), (0,), args[0]), (1,), I(i)), st)]
            if not there:
                if name == "mutating_get":
                    s.mem[(d, 8 + 8 * i)] = I(0)
                    return [("ret", ai.padd(d, 8 + 8 * i), s)]
                s.mem[(obj("spnone"), 0)] = I(0)
                return [("ret", obj("spnone"), s)]
            return [("ret", ai.padd(d, 8 + 8 * i), st)]
        return None


KINDS = {"vec": "the vector store", "map": "the map store", "arr": "the fixed array", "anon": "the anonymous mapping", "file": "the file mapping", "sparse": "the sparse table"}


class Check:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        self.seen = set()

    def fail(self, key, text):
        self.ctx.require(False, key, text)

    def dead(self, w, e, kind, fn):
        """the constructor failed"""
        self.ctx.require(not w.live(e), kind + ":leak", "%s: the constructor ends with an exception while memory is still held (%s)" % (KINDS[kind], site(self.m, fn)))

    def visible(self, st):
        """what a lookup must leave as it is"""
        skip = (obj("spnone"),)
        return {k: v for k, v in st.mem.items() if k[0][0] == "s" and isinstance(k[0][1], tuple) and k[0][1][0] == "arg" and k[0] not in skip and
                not (v[0] == "s" and (not isinstance(v[1], tuple) or v[1][0] in ("old", "lost", "gone")))}

    def run(self, kind, new, ops, file=None):
        """ops: ('set', id, value) | ('get', id) | ('clear',) | ('end',)"""
        ctx, m = self.ctx, self.m
        what = KINDS[kind]
        w = Mem(m)
        mem = {(FILE, 0): I(0)}
        for x in new:
            if x[0] == "s":
                mem[(x, 0)] = S(str(x[1][1])[5:])
        expect0 = {}
        if file is not None:
            mem[(FILE, 0)] = I(file)
            for k in range(min(file // 8, 20)):
                mem[(FILE, 16 + 8 * k)] = I(1000 + k)
                expect0[k] = I(1000 + k)
        desc = ["%s(%s)" % ("new", ", ".join(str(a[1]) for a in new if a[0] == "i"))]
        states, exits = [], False
        try:
            for how, v, k, e in run_fn(m, w, "drv_%s_new" % kind, [X] + new, mem):
                exits = True
                if how == "ret":
                    states.append((e.mem, e.auto, dict(expect0)))
                else:
                    self.dead(w, e, kind, "drv_%s_new" % kind)
            for n, op in enumerate(ops + [("end",)]):
                desc.append("%s(%s)" % (op[0], ", ".join(str(x) for x in op[1:])))
                out, seen = [], set()
                for mem, auto, exp in states:
                    args = [X] + [I(x if x < 1 << 63 else x - (1 << 64)) for x in op[1:]]
                    fn = "drv_%s_%s" % (kind, op[0])
                    for how, v, k, e in run_fn(m, w, fn, args, mem, auto):
                        x = dict(exp)
                        if op[0] == "set" and how == "ret":
                            x[op[1]] = args[2]
                        if op[0] == "clear":
                            x = {}
                            ctx.require(how == "ret", kind + ":clear throws", "%s: clear() throws after %s (%s)" % (what, " ".join(desc), site(m, fn)))
                        if op[0] == "get":
                            if op[1] in exp:
                                ctx.count("lookups of stored values")
                                if how == "ret" and (v is None or v[0] != "i"):
                                    ctx.count("undecided lookups")
                                else:
                                    ctx.require(how == "ret" and v == exp[op[1]], kind + ":read back", "%s: %s gives %s, not the value %s stored last for that id (%s)" % (
                                        what, " ".join(desc), v[1] if how == "ret" else "an exception", exp[op[1]][1], site(m, fn)))
                            else:
                                ctx.count("lookups of ids without a value")
                            ch = {q for q in set(self.visible(e)) | set(k2 for k2 in mem if k2[0][0] == "s") if self.visible(e).get(q, mem.get(q)) != mem.get(q)}
                            ch = {q for q in ch if q in self.visible(e)}
                            ctx.require(not ch, kind + ":lookup changes", "%s: looking up id %d changes the store after %s (%s)" % (what, op[1], " ".join(desc[:-1]), site(m, fn)))
                        if op[0] == "end":
                            l = w.live(e)
                            ctx.require(not l, kind + ":leak", "%s: after %s memory is still held (%s)" % (what, " ".join(desc), site(m, fn)))
                            ctx.count("destroyed stores")
                        q = {k2: v2 for k2, v2 in e.mem.items() if k2[0][0] != "alloca"}
                        key = (frozenset(q.items()), e.auto, frozenset(x.items()))
                        if key not in seen:
                            seen.add(key)
                            out.append((q, e.auto, x))
                states = out
                if len(states) > 200:
                    raise Undecided("too many states")
                if not states:
                    break
            if not exits and not w.bad:
                ctx.count("undecided sequences")
        except Undecided:
            ctx.count("undecided sequences")
        ctx.count("sequences")
        for loc, b in w.bad.items():
            self.fail(kind + ":" + b.split(" ")[0] + ":" + loc, "%s %s in the sequence %s (%s)" % (what, b, " ".join(desc), loc))

    def size(self, kind, new, file=None):
        """number of items a new store has room for"""
        w = Mem(self.m)
        for how, v, k, e in run_fn(self.m, w, "drv_%s_new" % kind, [X] + new, {(FILE, 0): I(file or 0)}):
            if how == "ret" and not any(x[0] == "fail" for x in e.auto):
                for h2, v2, k2, e2 in run_fn(self.m, w, "drv_%s_size" % kind, [X], e.mem):
                    if h2 == "ret" and v2 is not None and v2[0] == "i":
                        return v2[1]
        return None

    def sequences(self, kind, new, n, file=None):
        # the vector keeps its items in the order of signed ids
        far = [1 << 40, (1 << 45) - 3, (1 << 60) - 1, (1 << 61) - 1, (1 << 61), (1 << 61) + 5, (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1]
        ids = sorted({x for x in (0, 1, n - 1, n, n + 1, 2 * n, 2 * n + 7) if x >= 0} | set(far))
        if kind == "vec":
            ids = [x for x in ids if x < 1 << 63]
        r = lambda *ops: self.run(kind, new, list(ops), file)
        r()
        r(("clear",))
        r(("clear",), ("clear",))
        for a in ids:
            r(("get", a))
            r(("set", a, 5), ("get", a), ("set", a, 6), ("get", a))
            r(("clear",), ("get", a))
            r(("clear",), ("set", a, 5), ("get", a))
            r(("set", a, 5), ("clear",), ("get", a), ("set", a, 6), ("get", a), ("clear",), ("clear",))
            for b in ids if self.ctx.thorough else [x for x in ids if abs(ids.index(x) - ids.index(a)) in (1, 3, 6)]:
                if a == b or kind == "vec" and a > b:
                    continue
                r(("set", a, 5), ("get", b), ("set", b, 6), ("get", a), ("get", b))
                r(("set", a, 5), ("set", b, 6), ("clear",), ("get", a), ("get", b))
        l = ids if kind == "vec" else [ids[3], ids[0], ids[6], ids[1], ids[4]]
        r(*([("set", x, 10 + k) for k, x in enumerate(l)] + [("get", x) for x in l]))
        if kind != "vec":
            l = [n + 1, 3, 5 * n + 1, n - 1, 40 * n + 7, n + 1, 3]
            r(*([("set", x, 10 + k) for k, x in enumerate(l)] + [("get", x) for x in l]))
        else:
            for c in range(1, 9):
                l = [3 * k + 1 for k in range(c)]
                r(*([("set", x, 10 + k) for k, x in enumerate(l)] + [("get", x) for x in l + [0, 2, 3, 5, 3 * c]]))


def run(ctx):
    m = translate("stores.cpp", also=ALSO)
    c = Check(ctx, m)
    for kind, new in (("vec", []), ("map", [])):
        c.sequences(kind, new, 3)
    for n in (0, 1, 5):
        c.sequences("arr", [I(n)], n)
    c.run("arr", [I((1 << 61) + 1)], [("set", 3, 5), ("get", 3)])
    c.run("arr", [I(-1)], [("set", 3, 5), ("get", 3)])
    n = c.size("anon", [])
    if not n:
        ctx.count("undecided capacities")
    c.sequences("anon", [], n or 100)
    for g in (0, 1, 3, 10000):
        c.sequences("sparse", [I(g)], g)
    for name, remove, size in (("", 1, None), ("store", 1, 0), ("store", 0, 8), ("store", 0, 80), ("store", 1, 12), ("store", 0, 84), ("store", 0, 16 << 20)):
        c.sequences("file", [obj("NAME:" + name), I(remove)], max(1, (size or 0) // 8), size)
    ctx.at_least("sequences", 300)
