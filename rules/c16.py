"""The assembler is interpreted abstractly: relations with representative members go through the first pass, objects in
representative orders (matching, unwanted, again, in other versions, of another kind with the same id) through the second. The
hooks of the child class are opaque; what they are handed is compared with what the members call for. Nothing is executed."""
import itertools, re
from ir import translate, FOREACH, STDFN, Undecided, AnalysisBroken, strip_params
from absint import I
from scenario import obj
from seqs import Seqs, ITERS, data
from terms import Terms
from rules.c13 import cell_of
from rules.handlers import site
from rules.lists import run_fn, vec_at, ptr_at

ALSO = (FOREACH, STDFN, r"^boost::shared_ptr<", r"^boost::(detail::)?(operator|swap)", r"\bboost::(addressof|begin|end|rbegin|rend|range|range_adl_barrier|integral_constant|range_detail|detail::(?!shared_count|sp_)|iterators)\b",
        r"std::(equal_range|__equal_range|lower_bound|__lower_bound|upper_bound|__upper_bound|distance|advance|__distance|__advance|__iterator_category)<", r"__gnu_cxx::__ops::", r"^std::pair<[^()]*>::pair", r"\bstd::make_pair<") + ITERS
A, P1, META = obj("ASM"), obj("=p1"), obj("=meta")
KIND = {"n": ("node", "_ZTVN6Osmium3OSM4NodeE"), "w": ("way", "_ZTVN6Osmium3OSM3WayE"), "r": ("relation", "_ZTVN6Osmium3OSM8RelationE")}
HOOK = re.compile(r"\bAsm<[^<>]*>::(\w+)\(|\bP<1>::(\w+)\(")


def load():
    return translate("assembler.cpp", also=ALSO)


class Layout:
    def __init__(self, m):
        self.m = m
        self.id = cell_of(m, m.fn("drv_get_id"))
        self.mref, self.mtype = cell_of(m, m.fn("drv_get_mref")), cell_of(m, m.fn("drv_get_mtype"))
        self.members = vec_at(m, "drv_get_mbegin")
        self.irel, self.imem = ptr_at(m, "drv_get_irel"), ptr_at(m, "drv_get_imem")
        self.msize = m.types["Osmium::OSM::RelationMember"]["size"]
        if None in (self.id, self.mref, self.mtype):
            raise AnalysisBroken("the fields of members cannot be found")


class Assembly(Seqs):
    def __init__(self, m, lay, keep):
        Seqs.__init__(self, m)
        self.lay, self.keep = lay, keep
        self.rev = False

    def new_vec(self, st, a, es, n, inst):
        used = {v[1][1] for v in st.mem.values() if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "vec"}
        k = 0
        while "v%d" % k in used:
            k += 1
        name = "v%d" % k
        self.vecs[data(name)] = (a, es)
        for c in [c for c in st.mem if c[0] == data(name)]:
            del st.mem[c]
        if n:
            st.mem[(data(name), ("z", 0, n * es))] = I(0)
        st.mem[a], st.mem[(a[0], a[1] + 8)] = ("s", ("vec", name)), I(n)
        return name

    def intr(self, ai, st, inst, name, args):
        if name.startswith("llvm.is.constant"):
            return I(0)
        return Seqs.intr(self, ai, st, inst, name, args)

    def no_havoc(self, ai, st, addr, inst):
        return bool(HOOK.search(ai.m.callee(inst) or "")) or Seqs.no_havoc(self, ai, st, addr, inst)

    def slots(self, st, a):
        """(relation, [members]) of the relation info at address a"""
        rel = st.mem.get((a[0], a[1] + self.lay.irel))
        v = self.info(st, (a[0], a[1] + self.lay.imem))
        out = []
        if v is None:
            return None
        for k in range(v[1]):
            x = st.mem.get((data(v[0]), 16 * k))
            if x is None and any(c[0] == data(v[0]) and not isinstance(c[1], int) and c[1][1] <= 16 * k < c[1][2] for c in st.mem):
                x = I(0)
            out.append(None if x == I(0) else x[1][1] if x is not None and x[0] == "s" and isinstance(x[1], tuple) else "?")
        return ("nothing" if rel == I(0) else rel[1][1] if rel is not None and rel[0] == "s" and isinstance(rel[1], tuple) else "?"), tuple(out)

    def target(self, st, v):
        a = (v[1], v[2]) if v[0] == "p" else (v, 0)
        p = st.mem.get(a)
        return p[1][1] if p is not None and p[0] == "s" and isinstance(p[1], tuple) and p[1][0] == "arg" else "nothing" if p == I(0) else "?"

    def call(self, ai, st, inst, name, args):
        full = ai.m.callee(inst) or name or ""
        k = HOOK.search(full)
        if k and k.group(1) == "keep_member":
            b = ai.addr(args[2])
            if b is None or b[0][1][0] != "arg" or not str(b[0][1][1]).startswith("data:m:") or b[1] % self.lay.msize:
                raise Undecided("a member that is not one of the list")
            r, n = b[0][1][1][7:], b[1] // self.lay.msize
            return self.event(st, ("keep", r, n))[:0] or [("ret", I(int(self.keep(r, n))), self.event(st, ("keep", r, n))[0][2])]
        if k and k.group(1) == "complete_relation":
            a = ai.addr(args[1])
            s = self.slots(st, a) if a else None
            if s is None:
                raise Undecided("the relation handed over")
            return self.event(st, ("complete",) + s)
        if k and k.group(1):
            return self.event(st, (k.group(1),) + ((self.target(st, args[1]),) if len(args) > 1 else ()))
        if k:
            return self.event(st, ("next " + k.group(2),) + ((self.target(st, args[1]),) if len(args) > 1 and "shared_ptr" in full else ()))
        if re.search(r"\bstd::(stable_)?sort<", full.split("(")[0]) and len(args) == 2:
            r = self.sort(ai, st, inst, args)
            if r is not None:
                return r
        return Seqs.call(self, ai, st, inst, name, args)

    def sort(self, ai, st, inst, args):
        """by the member id; members with equal ids in either order"""
        a, b = ai.addr(args[0]), ai.addr(args[1])
        if a is None or b is None:
            return None
        if a[0] != b[0] or a[0] not in self.vecs:
            self.wrong(inst, "sorts from the beginning of one list to the end of another")
        es = self.vecs[a[0]][1]
        items = []
        for k in range(a[1] // es, b[1] // es):
            c = {o[1] - k * es: v for o, v in st.mem.items() if o[0] == a[0] and isinstance(o[1], int) and k * es <= o[1] < (k + 1) * es}
            if c.get(0, ("u",))[0] != "i":
                return None
            items.append(c)
        if self.rev:
            items.reverse()
        items.sort(key=lambda c: c[0][1])
        s = st.copy()
        ai.clear(s, a[0], a[1], b[1])
        for k, c in enumerate(items):
            for o, v in c.items():
                s.mem[(a[0], a[1] + k * es + o)] = v
        return [("ret", None, s)]


class Check:
    def __init__(self, ctx, m):
        self.ctx, self.m, self.lay = ctx, m, Layout(m)

    def cells(self, w, rels, objs):
        """rels: {name: [(type, ref)]}, objs: {name: (type, id)}"""
        mem, l = {}, self.lay
        for n, ms in rels.items():
            o = obj(n)
            mem[(o, 0)] = ("p", ("glob", KIND["r"][1]), 16)
            mem[(o, l.id)] = I(900 + len(mem))
            mem[(obj("ptr." + n), 0)] = o
            mem.update(w.vector(o, l.members, "m:" + n, l.msize, len(ms)))
            d = data("m:" + n)
            for k, (t, r) in enumerate(ms):
                mem[(d, k * l.msize + l.mref)], mem[(d, k * l.msize + l.mtype)] = I(r), I(ord(t))
        for n, (t, i) in objs.items():
            o = obj(n)
            mem[(o, 0)] = ("p", ("glob", KIND[t][1]), 16)
            mem[(o, l.id)] = I(i)
            mem[(obj("ptr." + n), 0)] = o
        return mem

    def run(self, cfg, rels, objs, unkept=(), rev=False):
        """rels: [(name, members)], objs: [(name, type, id)] in the order of the file"""
        ctx, m = self.ctx, self.m
        w = Assembly(m, self.lay, lambda r, n: (r, n) not in unkept)
        w.rev = rev
        mem = self.cells(w, dict(rels), {n: (t, i) for n, t, i in objs})
        desc = "relations %s%s, then %s" % ("; ".join("%s[%s]" % (r, " ".join(t + str(i) for t, i in ms)) for r, ms in rels), " without %s" % (sorted(unkept),) if unkept else "", " ".join(n for n, t, i in objs))
        calls = [("new", [A, P1])] + [("rel1", [A, obj("ptr." + n)]) for n, ms in rels] + [("after1", [A])]
        wanted = {}
        info = {}
        for r, (n, ms) in enumerate(rels):
            info[r] = [None] * len(ms)
            for k, (t, i) in enumerate(ms):
                if (n, k) not in unkept:
                    wanted.setdefault((t, i), []).append((r, k))
        need = {r: sum(1 for l in wanted.values() for x in l if x[0] == r) for r in info}
        expect = [None, *[[("keep", n, k) for k in range(len(ms))] for n, ms in rels], []]
        expect[0] = []
        calls.append(("init", [A, META]))
        expect.append([("next init",)])
        last = None
        types = [t for t in "nwr" if t in cfg]
        for t in "nwr":
            calls.append(("before_%ss" % KIND[t][0], [A]))
            expect.append([("next before_%ss" % KIND[t][0],)])
            for n, tt, i in objs:
                if tt != t:
                    continue
                ev = []
                if t in cfg:
                    hits = wanted.get((t, i), [])
                    if not hits:
                        ev.append((KIND[t][0] + "_not_in_any_relation", n))
                    order = hits[::-1] if rev else hits
                    for r, k in order:
                        if info[r] is None:
                            continue
                        if info[r][k] is None:
                            need[r] -= 1
                        info[r][k] = n
                        if need[r] == 0:
                            ev.append(("complete", rels[r][0], tuple(info[r])))
                            info[r] = None
                calls.append((KIND[t][0], [A, obj("ptr." + n)]))
                expect.append(ev + [("next " + KIND[t][0], n)])
            calls.append(("after_%ss" % KIND[t][0], [A]))
            expect.append([("all_members_available",)] * (t in cfg and t == types[-1]) + [("next after_%ss" % KIND[t][0],)])
        calls.append(("final", [A]))
        expect.append([("next final",)])
        states = [(mem, ())]
        ctx.count("histories")
        try:
            for (fn, args), want in zip(calls, expect):
                out = {}
                for mem, _ in states:
                    for how, v, kind, e in run_fn(m, w, "drv_%s_%s" % (cfg, fn), args, mem):
                        # the order of relations completed by one object does not matter
                        got = tuple(sorted(e.auto[:-1], key=str)) + e.auto[-1:] if fn in ("node", "way", "relation") else e.auto
                        exp = tuple(sorted(want[:-1], key=str)) + tuple(want[-1:]) if fn in ("node", "way", "relation") else tuple(want)
                        if any("?" in str(x) for x in got):
                            ctx.count("undecided events")
                            return
                        at = "%s(%s)" % (fn, str(args[1][1][1])[4:] if len(args) > 1 and fn not in ("new", "init") else "")
                        if not ctx.require(got == exp, cfg + ":" + fn, "%s: %s leads to %s, expected %s (%s)" % (desc, at, show(got), show(exp), site(m, "drv_%s_%s" % (cfg, fn)))):
                            return
                        ctx.require(how == "ret" if fn != "after1" else how == "throw", cfg + ":" + fn + ":end", "%s: %s %s" % (desc, at, "ends with an exception" if how != "ret" else "does not end the first pass"))
                        q = {k: x for k, x in e.mem.items() if k[0][0] != "alloca"}
                        out[frozenset(q.items())] = (q, ())
                states = list(out.values())
                if w.bad:
                    break
                if not states:
                    ctx.count("undecided histories")
                    return
                if len(states) > 50:
                    raise Undecided("too many states")
        except Undecided as u:
            ctx.count("undecided histories")
        for loc, b in w.bad.items():
            ctx.require(False, "outside:" + loc, "%s: the assembler %s (%s)" % (desc, b, loc))


def show(ev):
    return "; ".join("%s(%s)" % (e[0], ", ".join(str(x) if not isinstance(x, tuple) else "[%s]" % " ".join(str(y or "-") for y in x) for x in e[1:])) for e in ev) or "nothing"


def run(ctx):
    ctx.rules = ["a wanted member is registered or stored at another place than its own", "a relation is handed over never, twice, or before its last wanted member arrived", "a completed relation is accessed", "a callback does not reach the chained handler"]
    ctx.assumptions = ["members with the same id are sorted stably or in reverse", "lists of up to four members in up to three relations stand for all: the loops carry only positions"]
    m = load()
    c = Check(ctx, m)
    N = lambda i, v="": ("n%d%s" % (i, v), "n", i)
    Wy = lambda i, v="": ("w%d%s" % (i, v), "w", i)
    R = lambda i, v="": ("r%d%s" % (i, v), "r", i)
    rels = {
        "one": [("A", [("n", 1)])],
        "none": [("A", [])],
        "kinds": [("A", [("n", 1), ("w", 1), ("r", 1)])],
        "shared": [("A", [("w", 1), ("w", 2)]), ("B", [("w", 2), ("w", 3)])],
        "same": [("A", [("w", 1)]), ("B", [("w", 1)]), ("C", [("w", 1)])],
        "twice": [("A", [("w", 1), ("w", 2), ("w", 1)])],
        "order": [("A", [("w", 3), ("n", 2), ("w", 1), ("n", 4)]), ("B", [("n", 4), ("w", 1)]), ("C", [("r", 2)])],
        "empty first": [("A", []), ("B", [("w", 2), ("n", 5)]), ("C", [("n", 5), ("n", 6)])],
        "unsorted": [("A", [("n", 4), ("n", 2), ("w", 3), ("w", 1), ("r", 3), ("r", 2)]), ("B", [("r", 1), ("w", 2), ("n", 3)])],
        "negative": [("A", [("n", -1), ("n", -3), ("w", -1)]), ("B", [("n", -3)])],
    }
    files = [
        [],
        [N(1), Wy(1), R(1)],
        [N(1), N(1, "b"), Wy(1), Wy(1, "b"), Wy(1, "c"), R(1), R(1, "b")],
        [N(2), N(3), N(4), Wy(1), Wy(2), Wy(3), Wy(4), R(2), R(3)],
        [N(4), N(2), N(3), Wy(3), Wy(1), Wy(2), R(1), R(3), R(2)],
        [N(2), N(2, "b"), N(4), N(4, "b"), Wy(1), Wy(1, "b"), Wy(2), Wy(2, "b"), Wy(3), Wy(3, "b"), R(2), R(2, "b")],
        [N(5), N(6), Wy(2), Wy(2, "b"), Wy(3)],
        [N(-3), N(-1), N(-1, "b"), Wy(-1), Wy(-2)],
        [N(7), Wy(7), R(7)],
    ]
    for cfg in ("nwr", "w", "nw", "r"):
        for rn, rl in rels.items():
            for fl in files:
                for rev in (False, True):
                    c.run(cfg, rl, fl, (), rev)
                if ctx.thorough or cfg in ("nwr", "w"):
                    every = [(n, k) for n, ms in rl for k in range(len(ms))]
                    kinds = {(n, k) for n, ms in rl for k, (t, i) in enumerate(ms) if t not in cfg}
                    if kinds:
                        c.run(cfg, rl, fl, kinds)
                    for x in every[:3]:
                        c.run(cfg, rl, fl, {x})
                    if every:
                        c.run(cfg, rl, fl, set(every))
    ctx.at_least("histories", 300)
