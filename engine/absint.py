"""Disjunctive finite-state abstract interpreter over normalised IR.

Values (hashable tuples)
  ('i', n)            integer / null constant
  ('p', base, off)    pointer into an object; base is ('alloca', id) | ('new', id) | ('glob', name) | a symbol
  ('s', key)          unknown value identified by where it was produced
  ('fn', name)        function address
  ('c', pred, a, b)   comparison of two values that is not decided
  ('tid', name)       exception type id
Paths are explored to a fixpoint over (block, state); a state holds the live SSA values, the
tracked memory cells, facts learned from branches, a property automaton and the exception in
flight.  Calls are opaque unless a client hook gives outcomes.
"""
from heapq import heappush, heappop
import itertools, time
from ir import AnalysisBroken, Undecided, operands, flat, strip_params

TOP_LIMIT = 400000
INV = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
OTHER = "other"
INF = float("inf")


def I(n):
    return ("i", n)


class St:
    __slots__ = ("env", "mem", "facts", "auto", "exc", "caught", "trace", "keepenv")

    def __init__(self):
        self.env, self.mem, self.facts = {}, {}, {}
        self.auto, self.exc, self.caught, self.trace = None, None, (), None
        self.keepenv = ()

    def copy(self):
        s = St()
        s.env, s.mem, s.facts = dict(self.env), dict(self.mem), dict(self.facts)
        s.auto, s.exc, s.caught, s.trace = self.auto, self.exc, self.caught, self.trace
        s.keepenv = self.keepenv
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()),
                self.auto, self.exc, self.caught)


def syms(v, acc):
    """symbols and object bases mentioned in a (flat) value"""
    t = v[0]
    if t == "s":
        acc.add(v)
    elif t == "p":
        acc.add(v[1])
    elif t == "c":
        syms(v[2], acc)
        syms(v[3], acc)
    elif t == "agg":
        syms(v[1], acc)
        syms(v[3], acc)
    return acc


def mentions(v, s):
    """does a flat value mention symbol s?"""
    t = v[0]
    if t == "s":
        return v == s
    if t == "p":
        return v[1] == s
    if t == "c":
        return mentions(v[2], s) or mentions(v[3], s)
    if t == "agg":
        return mentions(v[1], s) or mentions(v[3], s)
    return False


def contains(v, s):
    """does an arbitrary nested tuple mention symbol s?"""
    if v == s:
        return True
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            if isinstance(x, (tuple, frozenset)) and contains(x, s):
                return True
    return False


def replace(v, s, t):
    if v == s:
        return t
    if isinstance(v, frozenset):
        return frozenset(replace(x, s, t) for x in v)
    if isinstance(v, tuple):
        return tuple(replace(x, s, t) if isinstance(x, (tuple, frozenset)) else x for x in v)
    return v


def hull(f, g):
    lo, hi, ex = min(f[0], g[0]), max(f[1], g[1]), set()
    for x, y in ((f, g), (g, f)):
        for e in x[2]:
            if e in y[2] or e < y[0] or e > y[1]:
                ex.add(e)
    ex = frozenset(e for e in ex if lo <= e <= hi)
    if lo == -INF and hi == INF and not ex:
        return None
    return (lo, hi, ex)


def replace(v, s, t):
    if v == s:
        return t
    if isinstance(v, tuple):
        return tuple(replace(x, s, t) for x in v)
    return v


class Hooks:
    """Client callbacks; the default treats every call as opaque."""
    concrete = False        # pointers advanced in loops are followed one by one (the client bounds the loops)

    def call(self, ai, st, inst, name, args):
        """return None for default handling, or a list of outcomes
        ('ret', value, state) | ('throw', kind, state) | ('stop', None, state)"""
        return None

    def exit(self, ai, st, how, kind, inst):
        pass

    def fold(self, ai, inst, op, n):
        """compute add/sub/mul of constants? (kept symbolic by default so that loops converge)"""
        return False

    def cmp(self, ai, st, pred, a, b):
        """decide an (in)equality the interpreter cannot decide; None: unknown"""
        return None

    def key(self, ai, st):
        """additional part of a state that is kept apart at joins"""
        return None

    def rename(self, auto, s, t):
        return replace(auto, s, t)

    def pinned(self, st):
        """symbols and bases that must be kept although the program no longer names them"""
        return ()

    def other_matches(self, ti):
        """can an exception of unknown kind have type ti? None: perhaps"""
        return None

    def store(self, ai, st, inst, addr, val):
        pass

    def index(self, ai, st, inst, base, off, var):
        """address with a variable offset; None: unknown"""

    def access(self, ai, st, inst, ptr, size, write):
        """size bytes are read or written through ptr"""

    def no_havoc(self, ai, st, addr, inst):
        """is the call known not to change the tracked cells of this object?"""
        return False

    def may_throw(self, ai, inst, name):
        return True

    def order(self, ai, st, pred, a, b):
        """decide any comparison before the interpreter does; None: unknown"""
        return None

    def arith(self, ai, st, inst, op, a, b):
        """value of an arithmetic operation or cast (b is None) the interpreter cannot compute; None: unknown"""
        return None

    def intr(self, ai, st, inst, name, args):
        """value of an intrinsic call; None: unknown"""
        return None

    def loaded(self, ai, st, addr, val, size):
        """value of a load of size bytes at addr of which the cell holds val (None: no cell)"""
        return val


class AbsInt:
    def __init__(self, m, fn, hooks, fold_small=False, name=None, havoc=True, args=None):
        self.m, self.fn, self.h, self.name, self.args = m, fn, hooks, name, args
        self.live = fn.live_in()
        self.exits = []          # (how, kind, state, inst)
        self.nstates = 0
        self.do_havoc = havoc
        self.maxstates = TOP_LIMIT
        self.visited_insts = set()
        self.fold_small = fold_small
        self.ret_value = None

    def k(self, inst):
        return inst.id if self.name is None else "%s#%d" % (self.name, inst.id)

    parent = None
    seq = itertools.count()
    maxsteps = 400000
    maxtime = 150               # seconds for one function
    deadline = time.monotonic() + 780       # for the whole check

    def depth(self):
        return 0 if self.parent is None else 1 + self.parent.depth()

    def sy(self, inst):
        return ("s", self.k(inst))

    # ---- values -----------------------------------------------------
    def val(self, st, o):
        if "i" in o:
            return st.env.get(o["i"], ("s", o["i"] if self.name is None else "%s#%d" % (self.name, o["i"])))
        if "c" in o:
            return I(o["c"])
        if "null" in o or "zero" in o:
            return I(0)
        if "a" in o:
            if self.args is not None and o["a"] < len(self.args):
                return self.args[o["a"]]
            return ("s", ("arg", o["a"]))
        if "fn" in o:
            return ("fn", o["fn"])
        if "g" in o:
            return ("p", ("glob", o["g"]), 0)
        if "gep" in o:
            b = self.val(st, o["gep"])
            return self.padd(b, o["off"])
        if "undef" in o:
            return ("u",)
        if "f" in o:
            return ("s", ("fp", o["f"]))
        if "ce" in o:
            if o["ce"] in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext") and o["ops"]:
                return self.val(st, o["ops"][0])
        return ("s", ("k", str(o)[:60]))

    def padd(self, v, off):
        if v[0] == "p":
            b, o = v[1], v[2] + off
            if o == 0 and b[0] == "s":
                return b
            return ("p", b, o)
        if v[0] == "s":
            return v if off == 0 else ("p", v, off)
        if v[0] == "i":
            return I(v[1] + off)
        return ("u",)

    def addr(self, v):
        """(base, off) of a pointer value or None"""
        if v[0] == "p":
            return (v[1], v[2])
        if v[0] == "s":
            return (v, 0)
        return None

    # ---- facts ------------------------------------------------------
    def rng(self, st, v):
        """(lo, hi, excluded) known for a value"""
        if v[0] == "i":
            return (v[1], v[1], frozenset())
        if v[0] in ("p", "fn"):
            return (1, INF, frozenset())   # a non-null address
        f = st.facts.get(v)
        return f if f is not None else (-INF, INF, frozenset())

    def const_of(self, st, v):
        lo, hi, ex = self.rng(st, v)
        return lo if lo == hi else None

    def cmp_eval(self, st, pred, a, b):
        """True/False/None"""
        if a[0] == "p" and b == a[1]:
            b = ("p", b, 0)
        elif b[0] == "p" and a == b[1]:
            a = ("p", a, 0)
        r = self.h.order(self, st, pred, a, b)
        if r is not None:
            return r
        if a == b and a[0] != "i" and a[0] != "u":
            return pred in ("eq", "sle", "sge", "ule", "uge")
        if a[0] == "tid" or b[0] == "tid" or a[0] == "u" or b[0] == "u":
            return None
        if pred in ("eq", "ne"):
            r = self.h.cmp(self, st, pred, a, b)
            if r is not None:
                return r
        # same base pointers
        if a[0] == "p" and b[0] == "p":
            if a[1] == b[1]:
                return {"eq": a[2] == b[2], "ne": a[2] != b[2], "ult": a[2] < b[2], "ule": a[2] <= b[2], "ugt": a[2] > b[2], "uge": a[2] >= b[2]}.get(pred)
            la, lb = a[1][0] in ("alloca", "glob", "new"), b[1][0] in ("alloca", "glob", "new")
            if la and lb and pred in ("eq", "ne"):
                return pred == "ne"
            return None
        la, ha, ea = self.rng(st, a)
        lb, hb, eb = self.rng(st, b)
        if pred in ("eq", "ne"):
            r = None
            if la == ha == lb == hb:
                r = True
            elif ha < lb or hb < la or (lb == hb and lb in ea) or (la == ha and la in eb):
                r = False
            elif a[0] in ("p", "fn") and b[0] in ("p", "fn"):
                r = None
            if r is not None:
                return r if pred == "eq" else not r
        elif a[0] not in ("p", "fn") and b[0] not in ("p", "fn"):
            p = pred
            if p[0] == "u":
                # only decide when the signs of both are known
                if (la >= 0 or ha < 0) and (lb >= 0 or hb < 0):
                    p = "s" + p[1:]
                    if la < 0:
                        la, ha = la + (1 << 64), ha + (1 << 64)
                    if lb < 0:
                        lb, hb = lb + (1 << 64), hb + (1 << 64)
                elif p == "ult" and b == I(0):
                    return False
                elif p == "uge" and b == I(0):
                    return True
                else:
                    p = None
            if p:
                if p in ("sge", "sgt"):
                    la, ha, lb, hb = lb, hb, la, ha
                    p = "sle" if p == "sge" else "slt"
                if p == "slt":
                    if ha < lb:
                        return True
                    if la >= hb:
                        return False
                if p == "sle":
                    if ha <= lb:
                        return True
                    if la > hb:
                        return False
        key, inv = self.ckey(pred, a, b)
        f = st.facts.get(key)
        if f is not None:
            return f != inv
        return None

    def ckey(self, pred, a, b):
        """canonical comparison key and whether it is inverted"""
        if repr(a) > repr(b):
            a, b, pred = b, a, SWAP.get(pred, pred)
        inv = False
        if pred in ("ne", "sge", "sgt", "uge", "ugt") and pred in INV:
            pred, inv = INV[pred], True
        return ("c", pred, a, b), inv

    def assume(self, st, v, truth):
        """refine st (in place) with value v being truth (bool); False if contradictory"""
        if v[0] == "i":
            return bool(v[1]) == truth
        if v[0] == "c":
            pred, a, b = v[1], v[2], v[3]
            r = self.cmp_eval(st, pred, a, b)
            if r is not None:
                return r == truth
            key, inv = self.ckey(pred, a, b)
            st.facts[key] = (truth != inv)
            p = pred if truth else INV.get(pred)
            if p is None:
                return True
            ok = True
            for x, y, q in ((a, b, p), (b, a, SWAP.get(p))):
                c = self.const_of(st, y)
                if c is not None and x[0] in ("s",):
                    ok = ok and self.refine(st, x, q, c)
            return ok
        if v[0] == "s":
            return self.refine(st, v, "ne" if truth else "eq", 0)
        return True

    def refine(self, st, x, p, c):
        lo, hi, ex = self.rng(st, x)
        if p == "eq":
            if c < lo or c > hi or c in ex:
                return False
            lo = hi = c
        elif p == "ne":
            if lo == hi == c:
                return False
            ex = ex | {c}
        elif p == "slt":
            hi = min(hi, c - 1)
        elif p == "sle":
            hi = min(hi, c)
        elif p == "sgt":
            lo = max(lo, c + 1)
        elif p == "sge":
            lo = max(lo, c)
        elif p == "ult" and c >= 0:
            lo, hi = max(lo, 0), min(hi, c - 1)
        elif p == "ule" and c >= 0:
            lo, hi = max(lo, 0), min(hi, c)
        elif p in ("ugt", "uge") and lo >= 0:
            lo = max(lo, c + (1 if p == "ugt" else 0))
        while lo in ex and lo != -INF:
            lo += 1
        while hi in ex and hi != INF:
            hi -= 1
        if lo > hi:
            return False
        if lo == hi:
            ex = frozenset()
        else:
            ex = frozenset(e for e in ex if lo <= e <= hi)
        st.facts[x] = (lo, hi, ex)
        # (x == 0) wrappers: a boolean built from a comparison
        return True

    # ---- memory -----------------------------------------------------
    def load(self, st, v, inst, size):
        a = self.addr(v)
        if a is None:
            return None
        r = self.h.loaded(self, st, a, st.mem.get(a), size)
        if r is not None:
            return r
        base, off = a
        if base[0] == "glob":
            r = self.gload(base[1], off, size)
            if r is not None:
                return r
        for k in st.mem:
            if k[0] == base and not isinstance(k[1], int) and k[1][1] <= off < k[1][2]:
                return I(0)
        return None

    def gload(self, name, off, size=0):
        g = self.m.globals.get(name)
        if not g or "init" not in g or not g["const"] and name not in self.m.unwritten():
            return None
        if size == 8 and not off and ("gep" in g["init"] or "g" in g["init"]):
            return self.val(None, g["init"])
        if "strhex" in g["init"] and size == 1:
            b = bytes.fromhex(g["init"]["strhex"])
            if 0 <= off < len(b):
                return I(b[off] - 256 if b[off] > 127 else b[off])
            return None
        if "cells" in g and size:
            c = g.get("_cells")
            if c is None:
                c = g["_cells"] = {(x[0], x[1]): x[2] for x in g["cells"]}
            x = c.get((off, size))
            if x is not None:
                return I(0) if "null" in x else self.val(None, x)
        a = g["init"].get("arr")
        if a and not name.startswith("_ZTV") and size and all("c" in x for x in a) and off % size == 0 and 0 <= off // size < len(a):
            return I(a[off // size]["c"])
        if name.startswith("_ZTV"):
            l = list(flat(g["init"]))
            if off % 8 == 0 and 0 <= off // 8 < len(l):
                return self.val(None, l[off // 8])
        return None

    def induct(self, inst):
        """a pointer advanced in a loop: the address stays symbolic"""
        c = self.fn.__dict__.setdefault("_induct", {}) if hasattr(self.fn, "__dict__") else {}
        r = c.get(inst.id)
        if r is None:
            r = False
            b = inst.d.get("base", {})
            if "i" in b and self.fn.insts[b["i"]].op == "phi":
                seen, todo = set(), [b["i"]]
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    p = self.fn.insts[x]
                    if p.op == "phi":
                        todo += [v["i"] for _, v in p.d["inc"] if "i" in v]
                r = inst.id in seen
            c[inst.id] = r
        return r

    def subcall(self, st, name, args, tag):
        """interpret a call of a function with a body; -> outcomes"""
        fn = self.m.fns[name]
        pre = (self.name + "/" if self.name else "") + tag
        self.retire(st, pre)
        sub = AbsInt(self.m, fn, self.h, self.fold_small, pre, self.do_havoc, args)
        sub.parent = self
        s = St()
        s.mem, s.facts, s.auto, s.caught, s.trace = dict(st.mem), dict(st.facts), st.auto, st.caught, None
        s.keepenv = tuple(st.env.values()) + tuple(args) + tuple(getattr(st, "keepenv", ()) or ())
        exits = sub.run(s)
        self.nstates += sub.nstates
        out = {}
        for how, kind, e, _ in exits:
            if how not in ("ret", "throw"):
                continue
            r = e.env.get("ret")
            n = St()
            n.env, n.mem, n.facts, n.auto, n.caught, n.trace = dict(st.env), e.mem, e.facts, e.auto, st.caught, st.trace
            n.exc, n.keepenv = st.exc, st.keepenv
            for k in [k for k in n.mem if k[0][0] == "alloca" and isinstance(k[0][1], str) and k[0][1].startswith(pre + "#")]:
                del n.mem[k]
            if how == "ret" and r is not None:
                n.env["ret"] = r
            self.gc(n)
            key = (how, kind, self.proj(n))
            o = out.get(key)
            if o is not None:
                n = self.join(o, n, pre)
            out[key] = n
        res = []
        for (how, kind, _), n in out.items():
            r = n.env.pop("ret", None)
            res.append((how, kind if how == "throw" else r, n))
        return res

    def retire(self, st, pre):
        """symbols made by an earlier activation of a callee are about to be made anew"""
        ss = set()
        for v in itertools.chain(st.env.values(), st.mem.values(), st.facts):
            syms(v, ss)
        for k in st.mem:
            ss.add(k[0])
        for x in ss:
            if x[0] == "s" and isinstance(x[1], str) and x[1].startswith(pre):
                self.kill_sym(st, x)

    def clear(self, st, base, lo, hi):
        """forget the cells of an object in [lo, hi)"""
        for k in [k for k in st.mem if k[0] == base]:
            if isinstance(k[1], int):
                if lo <= k[1] < hi:
                    del st.mem[k]
            elif k[1][1] < hi and k[1][2] > lo:
                z = k[1]
                del st.mem[k]
                if z[1] < lo:
                    st.mem[(base, ("z", z[1], lo))] = I(0)
                if z[2] > hi:
                    st.mem[(base, ("z", hi, z[2]))] = I(0)

    def store(self, st, v, val, size):
        a = self.addr(v)
        if a is None:
            return
        base, off = a
        self.clear(st, base, off, off + max(size, 1))
        if size == 8 and val[0] == "s" and isinstance(val[1], tuple) and val[1][0] == "pair" and isinstance(off, int):
            st.mem[a], st.mem[(base, off + 4)] = val[1][1], val[1][2]
            return
        st.mem[a] = val

    def havoc(self, st, v, inst, size=None):
        """an opaque callee may have written through pointer v (size bytes, None: rest of object)"""
        a = self.addr(v)
        if a is None or self.h.no_havoc(self, st, a, inst):
            return
        self.clear(st, a[0], a[1], a[1] + size if size else INF)

    def kill_sym(self, st, s):
        """symbol s is about to be produced anew: whatever mentions it means the old value"""
        hit = [k for k, v in st.env.items() if mentions(v, s)]
        mhit = [k for k, v in st.mem.items() if mentions(v, s)]
        bhit = [k for k in st.mem if k[0] == s]
        au = st.auto is not None and contains(st.auto, s)
        fh = [k for k in st.facts if mentions(k, s)]
        if not (hit or mhit or bhit or au or fh):
            return
        if not (hit or mhit or bhit or au):
            for k in fh:
                del st.facts[k]
            return
        new = None
        for k in sorted(hit, key=str):
            n = ("s", k if self.name is None else "%s#%d" % (self.name, k))
            if st.env[k] == s and n != s:
                new = n
                break
        if new is None:
            new = ("s", ("old", s[1])) if not (isinstance(s[1], tuple) and s[1][0] == "old") else ("s", ("lost",) + s[1][1:])
        self.drop_sym(st, new)
        for k in hit:
            if k in st.env:
                st.env[k] = replace(st.env[k], s, new)
        for k in mhit:
            if k in st.mem:
                st.mem[k] = replace(st.mem[k], s, new)
        for k in bhit:
            if k in st.mem:
                v = st.mem.pop(k)
                st.mem[(new, k[1])] = v
        for k in fh:
            if k in st.facts:
                v = st.facts.pop(k)
                st.facts[replace(k, s, new)] = v
        if au:
            st.auto = self.h.rename(st.auto, s, new)

    def drop_sym(self, st, s):
        """forget everything that mentions s"""
        for k in [k for k, v in st.env.items() if mentions(v, s)]:
            del st.env[k]
        for k in [k for k, v in st.mem.items() if k[0] == s or mentions(v, s)]:
            del st.mem[k]
        for k in [k for k in st.facts if mentions(k, s)]:
            del st.facts[k]
        if st.auto is not None and contains(st.auto, s):
            st.auto = self.h.rename(st.auto, s, ("s", ("gone",)))

    # ---- joining ----------------------------------------------------
    CONST = ("i", "p", "fn", "tid")

    def proj(self, st):
        """the part of a state that is kept apart at joins"""
        return (frozenset((k, v) for k, v in st.env.items() if v[0] in self.CONST),
                frozenset((k, v) for k, v in st.mem.items() if v[0] in self.CONST),
                st.auto, st.exc, st.caught, self.h.key(self, st))

    def join(self, a, b, tag):
        """least state (in this domain) that covers a and b; both have the same projection"""
        a, b = a.copy(), b.copy()
        hulls = []
        for k in set(a.env) | set(b.env):
            va, vb = a.env.get(k), b.env.get(k)
            if va == vb:
                continue
            self_ = ("s", k if self.name is None or not isinstance(k, int) else "%s#%d" % (self.name, k))
            ra = self.rng(a, va if va is not None else self_)
            rb = self.rng(b, vb if vb is not None else self_)
            hulls.append((k, self_, va, vb, ra, rb))
        for k, n, va, vb, ra, rb in hulls:
            if va is not None and va != n:
                self.stale(a, n, k)
            if vb is not None and vb != n:
                self.stale(b, n, k)
        for k, n, va, vb, ra, rb in hulls:
            a.env[k] = n
        for k in list(a.mem):
            if b.mem.get(k) != a.mem[k]:
                del a.mem[k]
        facts = {}
        for k, f in a.facts.items():
            g = b.facts.get(k)
            if g is None:
                continue
            if k[0] == "c":
                if f == g:
                    facts[k] = f
            else:
                h = hull(f, g)
                if h:
                    facts[k] = h
        for k, n, va, vb, ra, rb in hulls:
            facts.pop(n, None)
            h = hull(ra, rb)
            if h:
                facts[n] = h
        a.facts = facts
        return a

    def stale(self, st, n, k):
        """value k becomes self-named n: other mentions of n are leftovers of an earlier iteration"""
        for x in [x for x, v in st.env.items() if x != k and mentions(v, n)]:
            st.env.pop(x)
            if isinstance(x, int):
                y = ("s", x if self.name is None else "%s#%d" % (self.name, x))
                if y != n:
                    self.stale(st, y, x)
        for x in [x for x, v in st.mem.items() if x[0] == n or mentions(v, n)]:
            del st.mem[x]
        for x in [x for x in st.facts if mentions(x, n)]:
            del st.facts[x]
        if st.auto is not None and contains(st.auto, n):
            st.auto = self.h.rename(st.auto, n, ("s", ("gone",)))

    # ---- execution --------------------------------------------------
    def run(self, init):
        fn = self.fn
        fn.dominators()
        num = {b: n for n, b in enumerate(fn.rpo)}
        table = {}
        heap = []
        queued = set()

        def push(b, st, pb):
            if pb is not None:
                new = {}
                for i in fn.blocks[b]:
                    if i.op != "phi":
                        break
                    for x, o in i.d["inc"]:
                        if fn.bidx[x] == pb:
                            new[i.id] = self.val(st, o)
                st = st.copy()
                st.env.update(new)
            lv = self.live[b]
            for k in [k for k in st.env if k not in lv]:
                del st.env[k]
            self.gc(st)
            k = (b, self.proj(st))
            o = table.get(k)
            if o is not None:
                if o.facts == st.facts and o.env == st.env and o.mem == st.mem:
                    return
                j = self.join(o, st, "%s%d" % (self.name or "", b))
                self.gc(j)
                if j.facts == o.facts and j.env == o.env and j.mem == o.mem:
                    return
                k2 = (b, self.proj(j))
                j.trace = o.trace
                if k2 != k:
                    o = table.get(k2)
                    if o is not None:
                        j = self.join(o, j, "%s%d" % (self.name or "", b))
                        if j.facts == o.facts and j.env == o.env and j.mem == o.mem:
                            return
                        j.trace = o.trace
                    k = k2
                st = j
            else:
                self.nstates += 1
                if self.nstates > self.maxstates:
                    raise Undecided("state explosion in %s (%d states)" % (fn.dem, self.nstates))
                st.trace = (b, st.trace)
            table[k] = st
            if k not in queued:
                queued.add(k)
                heappush(heap, (num.get(b, 0), next(self.seq), k))
        if not isinstance(init, list):
            init = [init]
        for s in init:
            push(0, s.copy(), None)
        steps = 0
        end = min(self.deadline, time.monotonic() + self.maxtime)
        while heap:
            _, _, k = heappop(heap)
            queued.discard(k)
            steps += 1
            if steps > self.maxsteps or steps & 15 == 0 and time.monotonic() > end:
                raise Undecided("no fixpoint in %s after %d steps" % (fn.dem, steps))
            for (nb, ns) in self.block(k[0], table[k].copy()):
                push(nb, ns, k[0])
        self.steps = steps
        self.table = table
        return self.exits

    def gc(self, st):
        """drop facts about symbols and cells of objects that can no longer be named"""
        ref = set()
        for v in st.env.values():
            syms(v, ref)
        for v in st.keepenv:
            syms(v, ref)
        ref |= set(self.h.pinned(st))
        bases = {}
        for k, v in st.mem.items():
            bases.setdefault(k[0], []).append((k, v))
        todo = [b for b in bases if b in ref or b[0] == "glob" or (b[0] == "s" and isinstance(b[1], tuple) and b[1][0] == "arg")]
        keep = set(todo)
        while todo:
            b = todo.pop()
            for _, v in bases[b]:
                a = syms(v, set())
                ref |= a
                for x in a:
                    if x in bases and x not in keep:
                        keep.add(x)
                        todo.append(x)
        if len(keep) < len(bases):
            for b in bases:
                if b not in keep:
                    for k, _ in bases[b]:
                        del st.mem[k]
        for k in list(st.facts):
            if k[0] == "c":
                for x in (k[2], k[3]):
                    if x[0] == "s" and x not in ref and not isinstance(x[1], tuple) or x[0] == "p" and x[1] not in ref:
                        del st.facts[k]
                        break
            elif k not in ref and not (isinstance(k[1], tuple) and k[1][0] == "arg"):
                del st.facts[k]

    def setv(self, st, inst, v):
        if v == self.sy(inst) or (v[0] == "s" and v[1] == self.k(inst)):
            self.kill_sym(st, v)
        st.env[inst.id] = v

    def block(self, b, st):
        out = []
        states = [st]
        insts = self.fn.blocks[b]
        for inst in insts:
            if inst.op == "phi":
                continue
            self.visited_insts.add(inst.id)
            last = inst is insts[-1]
            nxt = []
            for s in states:
                if last:
                    out += self.term(s, inst, b)
                else:
                    nxt += self.step(s, inst)
            states = nxt
            if not last and not states:
                break
        return out

    def leave(self, st, how, kind, inst):
        st.exc = None
        self.exits.append((how, kind, st, inst))
        self.h.exit(self, st, how, kind, inst)

    def term(self, st, inst, b):
        fn, d = self.fn, inst.d
        if inst.op == "br":
            succ = [fn.bidx[x] for x in d["succ"]]
            if len(succ) == 1:
                return [(succ[0], st)]
            c = self.val(st, d["ops"][0])
            return self.branch(st, c, succ)
        if inst.op == "switch":
            v = self.val(st, d["ops"][0])
            c = self.const_of(st, v)
            cases = [(n, fn.bidx[x]) for n, x in d["cases"]]
            de = fn.bidx[d["default"]]
            if c is not None:
                for n, x in cases:
                    if n == c:
                        return [(x, st)]
                return [(de, st)]
            r = []
            s2 = st.copy()
            ok = True
            for n, x in cases:
                s1 = st.copy()
                if v[0] != "s" or self.refine(s1, v, "eq", n):
                    r.append((x, s1))
                if ok and v[0] == "s":
                    ok = self.refine(s2, v, "ne", n)
            if ok:
                r.append((de, s2))
            return r
        if inst.op == "ret":
            if d.get("ops"):
                st.env["ret"] = self.val(st, d["ops"][0])
            self.leave(st, "ret", None, inst)
            return []
        if inst.op == "resume":
            self.leave(st, "throw", st.exc or OTHER, inst)
            return []
        if inst.op == "unreachable":
            return []
        if inst.op == "invoke":
            r = []
            for how, x, s in self.docall(st, inst):
                if how == "ret":
                    r.append((fn.bidx[d["normal"]], s))
                elif how == "throw":
                    r += self.unwind(s, x, fn.bidx[d["unwind"]], inst)
            return r
        raise Undecided("terminator " + inst.op)

    def unwind(self, st, kind, blk, inst):
        """enter landing pad of block blk if it has a cleanup or a clause that can match"""
        st.exc = kind
        return [(blk, st)]

    def match(self, kind, ti):
        """does exception kind match catch type ti? True/False/None"""
        if ti is None:
            return True
        if kind == OTHER:
            return self.h.other_matches(ti)
        if kind == ti:
            return True
        return ti in self.m.typeinfo_bases(kind)

    def branch(self, st, c, succ):
        t, f = succ
        if c[0] == "s":
            r = self.h.order(self, st, "ne", c, I(0))
            if r is not None:
                c = I(int(r))
        if c[0] == "i":
            return [(t if c[1] else f, st)]
        s1, s2 = st.copy(), st
        r = []
        if self.assume(s1, c, True):
            r.append((t, s1))
        if self.assume(s2, c, False):
            r.append((f, s2))
        return r

    def docall(self, st, inst):
        m = self.m
        name = m.base(inst)
        args = [self.val(st, a) for a in inst.args]
        d = inst.d
        if name is not None and name.startswith("llvm."):
            return [("ret", None, self.intrinsic(st, inst, name, args))]
        if name == "__cxa_throw":
            ti = args[1]
            kind = ti[1][1] if ti[0] == "p" and ti[1][0] == "glob" else OTHER
            r = self.h.call(self, st, inst, name, args)
            return r if r is not None else [("throw", kind, st)]
        if name == "__cxa_begin_catch":
            st.caught = st.caught + (st.exc or OTHER,)
            st.exc = None
            self.h.call(self, st, inst, name, args)
            self.setv(st, inst, self.sy(inst))
            return [("ret", None, st)]
        if name == "__cxa_end_catch":
            st.caught = st.caught[:-1]
            return [("ret", None, st)]
        if name in ("__cxa_rethrow",):
            return [("throw", st.caught[-1] if st.caught else OTHER, st)]
        if name == "__cxa_allocate_exception":
            self.setv(st, inst, ("p", ("exc", self.k(inst)), 0))
            return [("ret", None, st)]
        if name in ("__cxa_free_exception",):
            return [("ret", None, st)]
        if name in ("__clang_call_terminate", "std::terminate", "abort"):
            r = self.h.call(self, st, inst, name, args)
            return r if r is not None else [("stop", None, st)]
        if name is None:
            cv = self.val(st, d["callee"])
            if cv[0] == "fn":
                dc = m.decls.get(cv[1])
                name = strip_params(dc["dem"]) if dc else cv[1]
                r = self.h.call(self, st, inst, name, args)
                if r is None and cv[1] in m.fns and self.depth() < 6:
                    r = self.subcall(st, cv[1], args, "v%s" % inst.id)
            else:
                r = self.h.call(self, st, inst, name, args)
        else:
            r = self.h.call(self, st, inst, name, args)
        if r is None:
            r = self.default_call(st, inst, name, args)
        out = []
        for how, v, s in r:
            if how == "ret" and v is not None and "ty" in d:
                if v == self.sy(inst):
                    pass
                s.env[inst.id] = v
            out.append((how, v, s))
        return out

    def default_call(self, st, inst, name, args):
        d = inst.d
        thr = not d.get("nothrow") and self.h.may_throw(self, inst, name)
        if name is not None:
            dc = self.m.decls.get(d["callee"].get("fn", ""), {})
            if dc.get("nothrow"):
                thr = False
        full = self.m.callee(inst) or ""
        r = []
        if self.do_havoc:
            const = full.endswith(" const")
            dr = d.get("deref", [])
            for k, a in enumerate(args):
                if k == 0 and const:
                    continue
                self.havoc(st, a, inst, dr[k] if k < len(dr) and dr[k] else None)
        if thr:
            r.append(("throw", OTHER, st.copy()))
        if d.get("noret"):
            if not thr:
                r.append(("stop", None, st))
            return r
        v = None
        if "ty" in d:
            v = self.sy(inst)
            self.kill_sym(st, v)
        r.append(("ret", v, st))
        return r

    def intrinsic(self, st, inst, name, args):
        if name.startswith("llvm.eh.typeid.for"):
            v = args[0]
            st.env[inst.id] = ("tid", v[1][1] if v[0] == "p" else None)
            return st
        if name.startswith("llvm.memset"):
            a = self.addr(args[0])
            n = args[2][1] if args[2][0] == "i" else None
            if a:
                base, off = a
                self.clear(st, base, off, off + n if n else INF)
                if args[1] == I(0) and n:
                    st.mem[(base, ("z", off, off + n))] = I(0)
            return st
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            a, b = self.addr(args[0]), self.addr(args[1])
            n = args[2][1] if args[2][0] == "i" else None
            if a:
                src = {k: v for k, v in st.mem.items() if b and k[0] == b[0]}
                self.clear(st, a[0], a[1], a[1] + n if n else INF)
                if b and n:
                    for k, v in src.items():
                        if isinstance(k[1], int) and b[1] <= k[1] < b[1] + n:
                            st.mem[(a[0], a[1] + k[1] - b[1])] = v
            return st
        r = self.h.intr(self, st, inst, name, args)
        if r is not None:
            st.env[inst.id] = r
            return st
        if "ty" in inst.d:
            v = self.sy(inst)
            if any(name.startswith(x) for x in ("llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin", "llvm.abs")) or True:
                self.setv(st, inst, v)
        return st

    def step(self, st, inst):
        d, op = inst.d, inst.op
        if op == "call":
            r = []
            for how, v, s in self.docall(st, inst):
                if how == "ret":
                    r.append(s)
                elif how == "throw":
                    self.leave(s, "throw", v, inst)
            return r
        if op == "alloca":
            st.env[inst.id] = ("p", ("alloca", self.k(inst)), 0)
            return [st]
        if op == "load":
            v = self.val(st, d["ops"][0])
            self.h.access(self, st, inst, v, d["size"], False)
            r = self.load(st, v, inst, d["size"])
            if r is None:
                r = self.sy(inst)
                a = self.addr(v)
                if contains(v, r):
                    a = None
                self.kill_sym(st, r)
                if a is not None:
                    st.mem[a] = r
            st.env[inst.id] = r
            return [st]
        if op == "store":
            v, a = self.val(st, d["ops"][0]), self.val(st, d["ops"][1])
            self.h.access(self, st, inst, a, d["size"], True)
            self.h.store(self, st, inst, a, v)
            self.store(st, a, v, d["size"])
            return [st]
        if op == "getelementptr":
            b = self.val(st, d["base"]) if "base" in d else self.sy(inst)
            off = d.get("off", 0)
            unk = "base" not in d
            r = self.h.index(self, st, inst, b, off, d.get("var", []))
            if r is not None:
                st.env[inst.id] = r
                return [st]
            for o, sc in d.get("var", []):
                c = self.const_of(st, self.val(st, o))
                if c is None:
                    unk = True
                else:
                    off += c * sc
            if unk or off and not self.h.concrete and self.induct(inst):
                self.setv(st, inst, self.sy(inst))
            else:
                st.env[inst.id] = self.padd(b, off)
            return [st]
        if op in ("icmp", "fcmp"):
            a, b = self.val(st, d["ops"][0]), self.val(st, d["ops"][1])
            p = d["pred"]
            if a[0] == "tid" or b[0] == "tid":
                t = a if a[0] == "tid" else b
                mt = self.match(st.exc or (st.caught[-1] if st.caught else OTHER), t[1])
                if mt is None:
                    v = ("c", "eq", ("s", ("exc", self.k(inst))), ("i", 1))
                    self.kill_sym(st, ("s", ("exc", self.k(inst))))
                else:
                    v = I(int(mt))
                if p == "ne":
                    v = self.neg(v)
                st.env[inst.id] = v
                return [st]
            if op == "fcmp":
                r = self.h.order(self, st, p, a, b)
                v = ("c", p, a, b) if r is None else I(int(r))
            else:
                r = self.cmp_eval(st, p, a, b)
                if r is None:
                    # comparison of a boolean with zero
                    if b == I(0) and a[0] == "c" and p in ("eq", "ne"):
                        v = a if p == "ne" else self.neg(a)
                    else:
                        v = ("c", p, a, b)
                else:
                    v = I(int(r))
            st.env[inst.id] = v
            return [st]
        if op == "select":
            c = self.val(st, d["ops"][0])
            a, b = self.val(st, d["ops"][1]), self.val(st, d["ops"][2])
            if c[0] == "s":
                r = self.h.order(self, st, "ne", c, I(0))
                if r is not None:
                    c = I(int(r))
            if c[0] == "i":
                st.env[inst.id] = a if c[1] else b
                return [st]
            if a == b:
                st.env[inst.id] = a
                return [st]
            r = []
            s1 = st.copy()
            if self.assume(s1, c, True):
                s1.env[inst.id] = a
                r.append(s1)
            if self.assume(st, c, False):
                st.env[inst.id] = b
                r.append(st)
            return r
        if op in ("zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "fneg"):
            r = self.h.arith(self, st, inst, op, self.val(st, d["ops"][0]), None)
            if r is not None:
                st.env[inst.id] = r
                return [st]
        if op in ("zext", "sext", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            v = self.val(st, d["ops"][0])
            if v[0] == "i" and op == "zext" and v[1] < 0:
                fr = self.m.strs[d["from"]]
                v = I(v[1] & ((1 << int(fr[1:])) - 1)) if fr[0] == "i" else v
            st.env[inst.id] = v
            return [st]
        if op == "trunc":
            v = self.val(st, d["ops"][0])
            ty = self.m.strs[d["ty"]]
            if v[0] == "i":
                w = int(ty[1:])
                n = v[1] & ((1 << w) - 1)
                if w > 1 and n >> (w - 1):
                    n -= 1 << w
                st.env[inst.id] = I(n)
            elif v[0] == "c" or ty == "i1" or (v[0] == "s" and ty in ("i8", "i32")):
                st.env[inst.id] = v
            else:
                self.setv(st, inst, self.sy(inst))
            return [st]
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem", "fadd", "fsub", "fmul", "fdiv"):
            a, b = self.val(st, d["ops"][0]), self.val(st, d["ops"][1])
            v = self.h.arith(self, st, inst, op, a, b)
            if v is None and op[0] != "f":
                v = self.arith(st, inst, op, a, b)
            if v is None:
                self.setv(st, inst, self.sy(inst))
            else:
                st.env[inst.id] = v
            return [st]
        if op == "landingpad":
            cl = d["clauses"]
            # without a cleanup the pad is entered only for matching clauses
            if not d["cleanup"]:
                may = False
                for c in cl:
                    o = c.get("catch")
                    if o is None:
                        continue
                    ti = None if "null" in o else o.get("g")
                    if self.match(st.exc or OTHER, ti) is not False:
                        may = True
                if not may:
                    self.leave(st, "throw", st.exc or OTHER, inst)
                    return []
            self.setv(st, inst, self.sy(inst))
            return [st]
        if op == "extractvalue":
            v = self.val(st, d["ops"][0])
            r = self.agg(v, d["idx"])
            if r is None:
                r = self.sy(inst)
                self.setv(st, inst, r)
            else:
                st.env[inst.id] = r
            return [st]
        if op == "insertvalue":
            a, b = self.val(st, d["ops"][0]), self.val(st, d["ops"][1])
            st.env[inst.id] = ("agg", a if a[0] == "agg" else ("u",), tuple(d["idx"]), b)
            return [st]
        if "ty" in d:
            self.setv(st, inst, self.sy(inst))
        return [st]

    def agg(self, v, idx):
        idx = tuple(idx)
        while v[0] == "agg":
            if v[2] == idx:
                return v[3]
            v = v[1]
        return None

    def neg(self, v):
        if v[0] == "i":
            return I(0 if v[1] else 1)
        if v[0] == "c" and v[1] in INV:
            return ("c", INV[v[1]], v[2], v[3])
        return ("c", "eq", v, I(0))

    def arith(self, st, inst, op, a, b):
        ca, cb = (a[1] if a[0] == "i" else None), (b[1] if b[0] == "i" else None)
        ty = self.m.strs[inst.d["ty"]]
        if op == "xor" and ty == "i1":
            if cb is not None:
                return self.neg(a) if cb else a
            if ca is not None:
                return self.neg(b) if ca else b
        if op == "and" and ty == "i1":
            for x, y in ((ca, b), (cb, a)):
                if x is not None:
                    return y if x else I(0)
        if op == "or" and ty == "i1":
            for x, y in ((ca, b), (cb, a)):
                if x is not None:
                    return I(1) if x else y
        if cb == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
            return a
        if ca == 0 and op in ("add", "or", "xor"):
            return b
        if ca is not None and cb is not None:
            try:
                n = {"add": lambda: ca + cb, "sub": lambda: ca - cb, "mul": lambda: ca * cb, "and": lambda: ca & cb,
                     "or": lambda: ca | cb, "xor": lambda: ca ^ cb, "shl": lambda: ca << cb,
                     "ashr": lambda: ca >> cb if 0 <= cb < 64 else None, "lshr": lambda: ca >> cb if ca >= 0 and 0 <= cb < 64 else None}.get(op, lambda: None)()
            except Exception:
                n = None
            if n is None:
                return None
            if op in ("and", "or", "xor", "shl") or self.fold_small or (n is not None and self.h.fold(self, inst, op, n)):
                if abs(n) < (1 << 40):
                    return I(n)
            return None
        if op == "add" and cb is not None and a[0] == "p":
            return self.padd(a, cb)
        return None


def path_lines(ai, st, limit=12):
    """source lines of the path that leads to a state (oldest first)"""
    bl = []
    t = st.trace
    while t:
        bl.append(t[0])
        t = t[1]
    out = []
    for b in reversed(bl):
        for i in ai.fn.blocks[b]:
            if i.is_call or i.op in ("br", "switch"):
                l = ai.m.line(i)
                if l != "?" and (not out or out[-1] != l):
                    out.append(l)
                break
    return out[-limit:]
