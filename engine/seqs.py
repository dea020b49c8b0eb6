"""Sequences during abstract interpretation: std::vector at the level of its methods. The cell of a vector object holds
('s', ('vec', id)), the next one its length; elements live in a region of their own, so that every access through an
index, a reference or an iterator can be compared with the length at that point. Element contents are whatever their
cells hold (symbols unless given)."""
import re
from absint import I
from strings import Strings, params
from scenario import obj
from ir import strip_templates

VEC = re.compile(r"^(?:.*[ &*])?std::vector<(.*), std::allocator<.*> ?>::(~?\w+|operator\W+)(?:<.*>)?$")
PRIM = {"double": 8, "int": 4, "unsigned int": 4, "char": 1, "signed char": 1, "unsigned char": 1, "long": 8, "unsigned long": 8, "float": 4, "short": 2, "unsigned short": 2}
ITERS = (r"^__gnu_cxx::__normal_iterator<", r"__gnu_cxx::operator(!=|==|-|<|>|<=|>=)", r"std::reverse_iterator<", r"std::operator(!=|==)<.*reverse_iterator", r"std::for_each<", r"std::__addressof<", r"std::addressof<",
         r"(^|[ &*])bool std::operator[!=]=<__gnu_cxx::__normal", r"std::reverse<", r"std::__reverse<", r"std::iter_swap<", r"std::swap<", r"std::(min|max)<")


def data(k):
    return obj("data:%s" % (k,))


class Outside(Exception):
    """an element that does not exist is accessed: nothing after that can be judged"""


class Seqs(Strings):
    concrete = True

    def __init__(self, m, sets=()):
        Strings.__init__(self, m, sets)
        self.bad = {}           # location -> what
        self.vecs = {}          # data region -> (vector address, element size)
        self.allow_end = True

    def esize(self, ty):
        ty = ty.strip()
        if ty.endswith("*"):
            return 8
        if ty in PRIM:
            return PRIM[ty]
        if re.match(r"(boost|std)::shared_ptr<", ty):
            return 16
        t = self.m.types.get(ty)
        return t["size"] if t else None

    def vector(self, base, off, name, esize, n):
        """cells of a vector with n elements at (base, off)"""
        self.vecs[data(name)] = ((base, off), esize)
        return {(base, off): ("s", ("vec", name)), (base, off + 8): I(n)}

    def info(self, st, a):
        """(name, length) of the vector at address a"""
        v = st.mem.get(a)
        if v is None or v[0] != "s" or not isinstance(v[1], tuple) or v[1][0] != "vec":
            return None
        n = st.mem.get((a[0], a[1] + 8))
        return (v[1][1], n[1]) if n is not None and n[0] == "i" else None

    def wrong(self, inst, what):
        self.bad.setdefault(self.m.loc(inst) if inst is not None else "?", what)
        raise Outside()

    def arith(self, ai, st, inst, op, a, b):
        if op == "sub" and b is not None and a[0] in ("p", "s") and b[0] in ("p", "s"):
            x, y = ai.addr(a), ai.addr(b)
            if x[0] == y[0] and ("p" in (a[0], b[0]) or x[0] in self.vecs) and isinstance(x[1], int) and isinstance(y[1], int):
                return I(x[1] - y[1])
        return Strings.arith(self, ai, st, inst, op, a, b)

    def access(self, ai, st, inst, ptr, size, write):
        a = ai.addr(ptr)
        if a is None or a[0] not in self.vecs or not isinstance(a[1], int):
            return
        (va, es) = self.vecs[a[0]]
        n = self.info(st, va)
        if n is None or n[0] != a[0][1][1][5:]:             # it was swapped or moved
            for k, v in st.mem.items():
                if v == ("s", ("vec", a[0][1][1][5:])):
                    n = self.info(st, k)
        if n is not None and n[0] == a[0][1][1][5:] and not 0 <= a[1] <= n[1] * es - size:
            self.wrong(inst, "%s element %d of a list of %d" % ("writes" if write else "reads", a[1] // es, n[1]))

    def new_vec(self, st, a, es, n, inst):
        b = a[0][1]
        name = "v%s.%d" % (b if isinstance(b, (int, str)) else b[1] if b[0] == "arg" and isinstance(b[1], str) else re.sub(r"[^\w]+", "_", str(b)), a[1])
        self.vecs[data(name)] = (a, es)
        st.mem[a], st.mem[(a[0], a[1] + 8)] = ("s", ("vec", name)), I(n)
        return name

    def call(self, ai, st, inst, name, args):
        full = ai.m.callee(inst)
        k = full and VEC.match(strip_of(full))
        if k and args:
            r = self.vmethod(ai, st, inst, k.group(1), k.group(2), full, args)
            if r is not None:
                return r
        if full and args and "std::__cxx11::basic_string<" in full.split("(")[0] and not strip_of(full).split("::")[-1].startswith(("operator+", "operator==")):
            self.access(ai, st, inst, args[0], 1, False)
        return Strings.call(self, ai, st, inst, name, args)

    def pos(self, ai, st, v, d, es):
        """index an iterator of the vector with data d stands for, or None"""
        a = ai.addr(v)
        if a and a[0] != d:                     # iterators passed in memory
            c = st.mem.get(a)
            a = ai.addr(c) if c is not None else None
        return a[1] // es if a and a[0] == d and isinstance(a[1], int) else None

    def vmethod(self, ai, st, inst, ty, name, full, args):
        if name in ("rbegin", "rend", "crbegin", "crend") and len(args) == 2:          # returned in memory
            a, es, o = ai.addr(args[1]), self.esize(ty), ai.addr(args[0])
            v = self.info(st, a) if a and es else None
            if v is None or o is None or not isinstance(o[1], int):
                return None
            s = st.copy()
            ai.clear(s, o[0], o[1], o[1] + 8)
            s.mem[o] = ("p", data(v[0]), v[1] * es if name.endswith("begin") else 0)
            return [("ret", None, s)]
        a = ai.addr(args[0])
        es = self.esize(ty)
        par = params(full)
        if a is None or es is None:
            return None
        if name == "vector":
            s = st.copy()
            if par == "" or par.startswith("std::allocator"):
                self.new_vec(s, a, es, 0, inst)
                return [("ret", None, s)]
            n = self.num(ai, st, args[1]) if par.startswith("unsigned long") else None
            if n is not None and 0 <= n < 64:
                self.new_vec(s, a, es, n, inst)
                return [("ret", None, s)]
            return None
        v = self.info(st, a)
        if v is None:
            return None
        vn, n = v
        d = data(vn)
        P = lambda i: ("p", d, i * es)
        out = lambda val, s=st: [("ret", val, s)]

        def length(s, x):
            s.mem[(a[0], a[1] + 8)] = I(x)
        if name == "~vector":
            return out(None)
        if name in ("swap", "operator=") and len(args) == 2 and "initializer_list" not in par:
            b = ai.addr(args[1])
            o = self.info(st, b) if b else None
            if o is None:
                return None
            s = st.copy()
            if name == "swap" or par.endswith("&&"):
                s.mem[a], s.mem[(a[0], a[1] + 8)] = st.mem[b], st.mem[(b[0], b[1] + 8)]
                s.mem[b], s.mem[(b[0], b[1] + 8)] = st.mem[a], I(n) if name == "swap" else I(0)
                if name != "swap":
                    ai.clear(s, d, 0, 1 << 40)
            else:
                ai.clear(s, d, 0, 1 << 40)
                for k, x in list(st.mem.items()):
                    if k[0] == data(o[0]):
                        s.mem[(d, k[1])] = x
                length(s, o[1])
            return out(args[0] if name != "swap" else None, s)
        if name in ("size",):
            return out(I(n))
        if name == "empty":
            return out(I(int(n == 0)))
        if name in ("begin", "cbegin", "data"):
            return out(P(0))
        if name in ("end", "cend"):
            return out(P(n))
        if name == "front":
            if n == 0:
                self.wrong(inst, "front() of an empty list")
            return out(P(0))
        if name == "back":
            if n == 0:
                self.wrong(inst, "back() of an empty list")
            return out(P(n - 1))
        if name in ("operator[]", "at"):
            i = self.num(ai, st, args[1])
            if i is None:
                return None
            if not 0 <= i < n:
                if name == "at":
                    return [("throw", "_ZTISt12out_of_range", st)]
                self.wrong(inst, "element %d of a list of %d" % (i, n))
            return out(P(i))
        if name in ("reserve", "shrink_to_fit"):
            return out(None)
        s = st.copy()
        if name == "clear":
            length(s, 0)
            ai.clear(s, d, 0, 1 << 40)
            return out(None, s)
        if name == "pop_back":
            if n == 0:
                self.wrong(inst, "pop_back() of an empty list")
            length(s, max(n - 1, 0))
            ai.clear(s, d, (n - 1) * es, n * es)
            return out(None, s)
        if name in ("push_back", "emplace_back"):
            src = ai.addr(args[1]) if len(args) > 1 else None
            ai.clear(s, d, n * es, (n + 1) * es)
            if src and par.count(",") == 0:
                for k, x in list(st.mem.items()):
                    if k[0] == src[0] and isinstance(k[1], int) and src[1] <= k[1] < src[1] + es:
                        s.mem[(d, n * es + k[1] - src[1])] = x
            length(s, n + 1)
            return out(P(n) if name == "emplace_back" else None, s)
        if name == "insert" and par.count("iterator") == 1 and len(args) == 3 and "initializer_list" not in par:
            at, src = self.pos(ai, st, args[1], d, es), ai.addr(args[2])
            if at is None or src is None or not 0 <= at <= n:
                return None
            moved = {k: x for k, x in s.mem.items() if k[0] == d and isinstance(k[1], int) and at * es <= k[1] < n * es}
            new = {(d, at * es + k[1] - src[1]): x for k, x in st.mem.items() if k[0] == src[0] and isinstance(k[1], int) and src[1] <= k[1] < src[1] + es}
            ai.clear(s, d, at * es, (n + 1) * es)
            s.mem.update({(d, k[1] + es): x for k, x in moved.items()})
            s.mem.update(new)
            length(s, n + 1)
            return out(P(at), s)
        if name == "resize":
            k = self.num(ai, st, args[1])
            if k is None or not 0 <= k < 1 << 20:
                return None
            if k < n:
                ai.clear(s, d, k * es, n * es)
            length(s, k)
            return out(None, s)
        return None


def strip_of(full):
    from ir import strip_params
    return strip_params(full)
