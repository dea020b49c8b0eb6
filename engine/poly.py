"""Canonical forms of terms: polynomials over accessor paths, accumulators and loop indices."""
from terms import Terms, nocast, show
from ir import strip_templates

GETTERS = ("OSMPBF::", "google::protobuf::")
ELEM = ("Get", "operator[]", "at", "operator*", "begin", "cbegin")


class Web:
    """a group of phis that carries one accumulated value"""
    def __init__(self, T, pid):
        self.T, fn = T, T.fn
        self.phis, self.entries, self.updates = set(), [], []
        self.trunc = False
        todo = [pid]
        while todo:
            p = todo.pop()
            if p in self.phis:
                continue
            self.phis.add(p)
            i = fn.insts[p]
            for blk, v in i.d["inc"]:
                self.visit(v, i, fn.bidx[blk], todo)
        self.width = T.m.strs[fn.insts[pid].d["ty"]]

    def __repr__(self):
        return "Web(%d)" % min(self.phis)

    def base(self, o, todo):
        """if operand o is (a cast of) something in the web return its phi id"""
        fn = self.T.fn
        while "i" in o:
            j = fn.insts[o["i"]]
            if j.op == "phi":
                return j.id
            if j.op in ("sext", "zext"):
                o = j.d["ops"][0]
                continue
            return None
        return None

    def visit(self, v, phi, blk, todo):
        fn = self.T.fn
        if "i" not in v:
            self.entries.append((self.T.t(v), blk, phi.blk))
            return
        j = fn.insts[v["i"]]
        while j.op in ("sext", "zext", "trunc") and "i" in j.d["ops"][0]:
            if j.op == "trunc":
                self.trunc = True
            j = fn.insts[j.d["ops"][0]["i"]]
        if j.op == "phi":
            # part of the web if it depends on the web, else an entry; optimistic: part of it
            todo.append(j.id)
            return
        if j.op == "select":
            for o in j.d["ops"][1:]:
                self.visit(o, phi, blk, todo)
            return
        if j.op in ("add", "sub"):
            r = self.chain(j, phi)
            if r is not None:
                k, ts = r
                todo.append(k)
                t = ts[0]
                for x in ts[1:]:
                    t = ("op", "add", t, x)
                self.updates.append((t, j))
                return
        self.entries.append((self.T.t(v), blk, phi.blk))

    def chain(self, j, phi):
        """j = phi' + t1 + t2 ... with phi' in the web -> (phi', [t1, ...])"""
        fn = self.T.fn
        a, b = j.d["ops"]
        for x, y in ((a, b), (b, a)):
            if "i" in x:
                k = fn.insts[x["i"]]
                while k.op in ("sext", "zext", "trunc") and "i" in k.d["ops"][0]:
                    k = fn.insts[k.d["ops"][0]["i"]]
                if k.op == "select":
                    # a conditional reset: the other operand starts a new sum
                    ks = [fn.insts[o["i"]] for o in k.d["ops"][1:] if "i" in o and fn.insts[o["i"]].op == "phi"]
                    if len(ks) == 1 and (ks[0].id in self.phis or self.reaches(ks[0].id, phi.id)):
                        for o in k.d["ops"][1:]:
                            if o.get("i") != ks[0].id:
                                self.entries.append((self.T.t(o), k.blk, phi.blk))
                        k = ks[0]
                t = self.T.t(y)
                if j.op == "sub":
                    t = ("op", "sub", ("c", 0), t)
                if k.op == "phi" and (k.id in self.phis or self.reaches(k.id, phi.id)):
                    return k.id, [t]
                if k.op in ("add", "sub"):
                    r = self.chain(k, phi)
                    if r:
                        return r[0], r[1] + [t]
            if j.op == "sub":
                break
        return None

    def reaches(self, a, b):
        """does the value of phi a depend (through phis and adds) on phi b?"""
        fn, seen, todo = self.T.fn, set(), [a]
        while todo:
            p = todo.pop()
            if p == b:
                return True
            if p in seen:
                continue
            seen.add(p)
            i = fn.insts[p]
            ops = [v for _, v in i.d["inc"]] if i.op == "phi" else [o for o in i.ops if isinstance(o, dict)] if i.op in ("add", "sub", "sext", "zext", "trunc", "select") else []
            todo += [o["i"] for o in ops if "i" in o]
        return False

    def loops(self):
        """loops whose header carries a phi of the web, outermost first"""
        hs = {self.T.fn.insts[p].blk for p in self.phis}
        return [(h, b) for h, b in self.T.fn.loops() if h in hs]


class MemWeb:
    """an accumulator kept in a memory cell"""
    def __init__(self, T, addr):
        self.T, self.addr, fn = T, addr, T.fn
        self.phis, self.entries, self.updates, self.trunc = set(), [], [], False
        self.width = None
        for s in T.stores()[addr]:
            t = T.t(s.d["ops"][0])
            u = nocast(t)
            if u[0] == "op" and u[1] == "add" and any(nocast(x)[0] == "load" and nocast(x)[1] == addr for x in u[2:4]):
                y = [x for x in u[2:4] if not (nocast(x)[0] == "load" and nocast(x)[1] == addr)]
                if y:
                    self.updates.append((y[0], s))
                    continue
            self.entries.append((t, s.blk, s.blk))
        self.width = "i64"

    def __repr__(self):
        return "Mem(%r)" % (self.addr,)

    def loops(self):
        ub = {s.blk for _, s in self.updates}
        eb = {b for _, b, _ in self.entries}
        return [(h, b) for h, b in self.T.fn.loops() if ub <= b and not (eb & b)]


class Canon:
    def __init__(self, T, getters=GETTERS):
        self.T, self.getters = T, getters
        self.webs = {}

    def web(self, pid):
        w = self.webs.get(pid)
        if w is None:
            w = Web(self.T, pid)
            for p in w.phis:
                self.webs[p] = w
        return w

    def accatom(self, w, y):
        bad = [e for e, _, _ in w.entries if e != ("c", 0)]
        p = self.poly(y)
        inv = None
        if len(p) == 1:     # factors that do not change within a block go outside
            (m, c), = p.items()
            out = [a for a in m if a[0] == "get" and "." not in a[1]]
            if out and len(out) < len(m):
                p = {tuple(a for a in m if a not in out): c}
                inv = out
        if bad:
            a = ("accfrom", freeze(p), w, tuple(show(e) for e in bad)) if all(e[0] == "c" for e in bad) else ("?accfrom", freeze(p))
        else:
            a = ("acc", freeze(p), w)
        return {tuple(sorted([a] + (inv or []), key=repr)): 1}

    def memweb(self, addr):
        k = ("mem", addr)
        if k not in self.webs:
            self.webs[k] = MemWeb(self.T, addr) if addr in self.T.stores() else None
        return self.webs[k]

    def path(self, t):
        """accessor path of a term: tuple of (name, index term) from the outside in, or None"""
        t = nocast(t)
        if t[0] == "call" and t[1]:
            n = t[1].replace("[abi:cxx11]", "")
            for g in self.getters:
                if n.startswith(g):
                    short = n[len(g):]
                    last = short.split("::")[-1]
                    if "RepeatedField" in short or "RepeatedPtrField" in short or "RepeatedPtrIterator" in short:
                        p = self.path(t[2][0]) if t[2] else None
                        if p is None:
                            return None
                        if last in ("Get", "operator[]", "at") and len(t[2]) > 1:
                            return p[:-1] + ((p[-1][0], t[2][1]),)
                        if last == "size":
                            return p[:-1] + ((p[-1][0] + "_size", None),)
                        if last in ("operator*", "begin", "cbegin"):
                            return p[:-1] + ((p[-1][0], ("iter",)),)
                        return p + ((short, None),)
                    p = self.path(t[2][0]) if t[2] else ()
                    if last.startswith("mutable_"):
                        last = last[8:]
                    return (p or ()) + ((last, t[2][1] if len(t[2]) > 1 else None),)
            if n.endswith("basic_string::data") or n.endswith("basic_string::c_str"):
                return self.path(t[2][0])
        if t[0] == "load":
            return self.path(t[1])
        return None

    def name(self, p):
        return ".".join(x[0] for x in p)

    def poly(self, t):
        """polynomial: frozenset of (monomial tuple, coefficient)"""
        t0 = t
        t = nocast(t, keep=("trunc", "fptosi", "fptoui", "sitofp", "uitofp"))
        if t[0] == "c":
            return {(): t[1]} if t[1] else {}
        if t[0] == "cast" and t[1] == "trunc":
            return self.poly(t[4])
        if t[0] == "op":
            if t[1] in ("add", "sub"):
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    x = nocast(x)
                    if x[0] == "phi" and t[1] == "add":
                        w = self.web(x[1])
                        if w.updates and all(self.same(u, y) for u, _ in w.updates):
                            return self.accatom(w, y)
                    if x[0] == "load" and t[1] == "add":
                        w = self.memweb(x[1])
                        if w is not None and w.updates and all(self.same(u, y) for u, _ in w.updates):
                            return self.accatom(w, y)
                a, b = self.poly(t[2]), self.poly(t[3])
                r = dict(a)
                for m, c in b.items():
                    r[m] = r.get(m, 0) + (c if t[1] == "add" else -c)
                return {m: c for m, c in r.items() if c}
            if t[1] == "mul":
                a, b = self.poly(t[2]), self.poly(t[3])
                r = {}
                for m, c in a.items():
                    for n, d in b.items():
                        k = tuple(sorted(m + n, key=repr))
                        r[k] = r.get(k, 0) + c * d
                return {m: c for m, c in r.items() if c}
            if t[1] == "shl" and t[3][0] == "c":
                return {m: c << t[3][1] for m, c in self.poly(t[2]).items()}
            if t[1] in ("sdiv", "udiv"):
                return {(("div", freeze(self.poly(t[2])), freeze(self.poly(t[3]))),): 1}
            return {(("op", t[1], freeze(self.poly(t[2])), freeze(self.poly(t[3]))),): 1}
        p = self.path(t)
        if p:
            if p[-1][0] == "s" and len(p) >= 2 and p[-1][1] is not None:
                return {(("string", self.name(p[:-1]), freeze(self.poly(p[-1][1]))),): 1}
            return {(("get", self.name(p)),): 1}
        if t[0] == "phi":
            w = self.web(t[1])
            if w.updates and w.entries and all(e[0] == "c" for e, _, _ in w.entries) and all(self.path(nocast(u)) for u, _ in w.updates):
                return {(("before", freeze(self.poly(w.updates[0][0]))),): 1}
            return {(("phi",) + tuple(sorted(w.phis)),): 1}
        return {((t[0],) + ((t[1],) if len(t) > 1 and not isinstance(t[1], tuple) else ()),): 1}

    def same(self, a, b):
        return freeze(self.poly(a)) == freeze(self.poly(b))


def freeze(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


def pshow(p):
    """readable polynomial (frozen)"""
    if not p:
        return "0"
    return " + ".join((("%s*" % c if c != 1 else "") + "*".join(ashow(a) for a in m)) if m else str(c) for m, c in p)


def ashow(a):
    if a[0] == "get":
        return a[1]
    if a[0] == "acc":
        return "sum(%s)" % pshow(a[1])
    if a[0] == "accfrom":
        return "(%s+sum(%s))" % ("/".join(a[3]), pshow(a[1]))
    if a[0] == "before":
        return "sum-before(%s)" % pshow(a[1])
    if a[0] == "div":
        return "(%s)/(%s)" % (pshow(a[1]), pshow(a[2]))
    if a[0] == "string":
        return "%s[%s]" % (a[1], pshow(a[2]))
    if a[0] == "op":
        return "(%s %s %s)" % (pshow(a[2]), a[1], pshow(a[3]))
    return "?%s" % a[0]


# -- construction and comparison of polynomials ------------------------------------------------------
def P(x):
    """polynomial from an int, an accessor name or an atom"""
    if isinstance(x, dict):
        return x
    if isinstance(x, int):
        return {(): x} if x else {}
    if isinstance(x, str):
        x = ("get", x)
    return {(x,): 1}


def mul(a, b):
    r = {}
    for m, c in P(a).items():
        for n, d in P(b).items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
    return r


def add(a, b):
    r = dict(P(a))
    for m, c in P(b).items():
        r[m] = r.get(m, 0) + c
    return {m: c for m, c in r.items() if c}


def acc(a):
    return {(("acc", freeze(P(a))),): 1}


def div(a, b):
    return {(("div", freeze(P(a)), freeze(P(b))),): 1}


def string(table, idx):
    return {(("string", table, freeze(P(idx))),): 1}


def norm(p):
    """drop the identities of accumulators; canonical order"""
    r = {}
    for m, c in (p.items() if isinstance(p, dict) else p):
        k = tuple(sorted((natom(a) for a in m), key=repr))
        r[k] = r.get(k, 0) + c
    return freeze(r)


def natom(a):
    if a[0] in ("acc", "?accfrom"):
        return (a[0], norm(a[1]))
    if a[0] == "accfrom":
        return (a[0], norm(a[1]), a[3])
    if a[0] == "div":
        return ("div", norm(a[1]), norm(a[2]))
    if a[0] == "string":
        return ("string", a[1], norm(a[2]))
    if a[0] == "op":
        return ("op", a[1], norm(a[2]), norm(a[3]))
    if a[0] == "before":
        return ("before", norm(a[1]))
    return a


def atoms(p, acc_=None):
    """all atoms of a (frozen) polynomial, nested ones included"""
    r = acc_ if acc_ is not None else []
    for m, c in (p.items() if isinstance(p, dict) else p):
        for a in m:
            r.append(a)
            for x in a[1:]:
                if isinstance(x, tuple) and a[0] in ("acc", "accfrom", "div", "string", "op", "before"):
                    if all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) for y in x):
                        atoms(x, r)
    return r


KNOWN = ("get", "acc", "accfrom", "div", "string", "before", "op")


def decided(p):
    """does the polynomial consist of understood parts only?"""
    return all(a[0] in KNOWN for a in atoms(p))
