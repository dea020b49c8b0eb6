"""The string table of the PBF writer, interpreted abstractly through sequences of strings that are recorded, stored, mapped and cleared,
over models of the standard containers. Part of C05. Nothing is executed."""
import itertools, re
from ir import translate, FOREACH, STDFN, strip_templates, AnalysisBroken, Undecided
from absint import I
from scenario import obj
from seqs import Seqs, ITERS, Outside
from strings import S
from rules.c14 import ALSO
from rules.handlers import site
from rules.steps import Run
from rules.outpbf import trunc_to, bits
from rules import model
from terms import Terms, nocast

MAPS = re.compile(r"^(?:.*[ &*])?std::(map|multimap|set|multiset)<(.*)>::(~?\w+|operator\W+)(?:<.*>)?$")
T, ST = obj("TABLE"), obj("MESSAGE")


def load():
    return translate("strings.cpp", keep=(r"operator<\(Osmium::StringTable", r"flip_pair"), also=ALSO + (r"^std::(insert_iterator|back_insert_iterator)<", r"std::transform<", r"std::inserter<", r"std::copy<", r"_Rb_tree_node<.*::_M_valptr",
                     r"^std::pair<.*>::(~?pair|operator=)", r"std::less<.*::operator\(\)", r"__gnu_cxx::__aligned_"))


def parts(s):
    """template arguments at the outer level"""
    out, d, cur = [], 0, ""
    for c in s:
        d += (c in "<(") - (c in ">)")
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


class Tab(Seqs):
    extra = 0           # entries of maps of texts that are not known
    flip = False        # are strings that are used equally often ordered the other way round?

    def size(self, ty):
        ty = ty.replace(" const", "").strip()
        return 32 if "basic_string<" in ty.split(",")[0] else self.esize(ty)

    def lists(self, st, a):
        v = st.mem.get(a)
        return v[1][1] if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "nodes" else None

    def end(self, a):
        return obj("=end:%s:%s" % a)

    def less(self, ai, st, ty, x, y):
        """is the key at x less than the one at y?"""
        if "basic_string<" in ty.split(",")[0]:
            p, q = self.text(ai, st, x), self.text(ai, st, y)
            return None if p is None or q is None else p < q
        f = [n for n in self.m.fns if re.match(r"(.* )?(\w+::)*operator<\(%s const&, %s const&\)" % (re.escape(ty), re.escape(ty)), self.m.decls.get(n, {}).get("dem", ""))]
        if len(f) == 1:
            r = ai.subcall(st, f[0], [x, y], "less")
            if len(r) == 1 and r[0][0] == "ret" and r[0][1] is not None and r[0][1][0] == "i":
                return bool(r[0][1][1] & 1)
        if self.esize(ty) in (1, 2, 4, 8):
            p, q = (st.mem.get(ai.addr(z)) for z in (x, y))
            if p is not None and q is not None and p[0] == q[0] == "i":
                return p[1] < q[1]
        return None

    def call(self, ai, st, inst, name, args):
        full = ai.m.callee(inst) or name or ""
        k = MAPS.match(ai.m.base(inst) or "")
        if k and args:
            r = self.tree(ai, st, inst, k.group(1), parts(k.group(2)), k.group(3), args)
            if r is not None:
                return r
        c = (inst.d.get("callee") or {}).get("fn")
        if c in ai.m.fns and not c.startswith("drv_"):
            return ai.subcall(st, c, list(args), "in%d" % inst.id if hasattr(inst, "id") else c)
        b = strip_templates(ai.m.base(inst) or name or "")
        if b in ("std::_Rb_tree_increment", "std::_Rb_tree_decrement"):
            for c, v in st.mem.items():
                l = self.lists(st, c)
                if l is None:
                    continue
                end = self.end(c)
                seq = [obj(x) for x in l] + [end]
                if args[0] in seq:
                    n = seq.index(args[0]) + (1 if "increment" in b else -1)
                    if not 0 <= n < len(seq):
                        self.wrong(inst, "an iterator is moved past the end")
                    return [("ret", seq[n], st)]
            return None
        if b.startswith("OSMPBF::StringTable::"):
            f = b.split("::")[-1]
            l = st.mem.get((ST, "s"))
            l = l[1][1:] if l is not None else ()
            if f == "add_s" and len(args) == 2:
                t = self.text(ai, st, args[1])
                if t is None:
                    return None
                s = st.copy()
                s.mem[(ST, "s")] = ("s", ("strs",) + l + (t,))
                return [("ret", None, s)]
            if f == "s_size":
                return [("ret", I(len(l)), st)]
            if f == "s" and len(args) == 2:
                n = self.num(ai, st, args[1])
                if n is None:
                    return None
                if not 0 <= n < len(l):
                    self.wrong(inst, "string %d of a table of %d strings is accessed" % (n, len(l)))
                o = obj("str%d" % n)
                s = st.copy()
                s.mem[(o, 0)] = S(l[n])
                return [("ret", o, s)]
            return None
        if b.startswith("std::pair") and b.endswith("~pair"):
            return [("ret", None, st)]
        return Seqs.call(self, ai, st, inst, name, args)

    def loaded(self, ai, st, a, val, size):
        if val is not None and val[0] == "s" and isinstance(val[1], tuple) and val[1][0] == "pair" and size == 2:
            return val[1][1]
        if val is None and a[0] in self.vecs and self.vecs[a[0]][1] == size and isinstance(a[1], int):
            n = self.info(st, self.vecs[a[0]][0])
            if n is not None and 0 <= a[1] < n[1] * size:
                return I(0)
        return Seqs.loaded(self, ai, st, a, val, size)

    def tree(self, ai, st, inst, cls, ta, f, args):
        a = ai.addr(args[0])
        if a is None or not isinstance(a[1], int):
            return None
        key, val = ta[0], ta[1] if "map" in cls else None
        ks, vs = self.size(key), self.size(val) if val else 0
        if ks is None or vs is None:
            return None
        at = 32 + (ks + 7) // 8 * 8 if vs >= 8 or ks % 4 else 32 + ks
        if vs == 32:
            at = 32 + (ks + 7) // 8 * 8
        out = lambda v, s=st: [("ret", v, s)]
        end = self.end(a)
        if f == cls:
            s = st.copy()
            ai.clear(s, a[0], a[1], a[1] + 48)
            s.mem[a] = ("s", ("nodes", ()))
            return out(None, s)
        l = self.lists(st, a)
        if l is None:
            return None
        if f.startswith("~"):
            return out(None)
        if f in ("size", "empty"):
            n = len(l) + (self.extra if ks == 32 else 0)
            return out(I(n if f == "size" else int(not n)))
        if f == "clear":
            s = st.copy()
            s.mem[a] = ("s", ("nodes", ()))
            return out(None, s)
        if f in ("begin", "cbegin"):
            return out(obj(l[0]) if l else end)
        if f in ("end", "cend"):
            return out(end)
        multi = cls.startswith("multi")

        def place(k):
            """(index at which a key goes, node that has it)"""
            p = 0
            for n, x in enumerate(l):
                y = ai.padd(obj(x), 32)
                lt, gt = self.less(ai, st, key, y, k), self.less(ai, st, key, k, y)
                if lt is None or gt is None:
                    return None
                if not lt and not gt:
                    if not multi:
                        return n, x
                    if not self.flip:
                        p = n + 1
                elif lt:
                    p = n + 1
            return p, None

        def add(p):
            s = st.copy()
            c = s.mem.get((obj("=nodes"), 0), I(0))[1] + 1
            s.mem[(obj("=nodes"), 0)] = I(c)
            x = "=n%d" % c
            s.mem[a] = ("s", ("nodes", l[:p] + (x,) + l[p:]))
            return s, x

        def copy(s, to, frm, n):
            for k, v in list(st.mem.items()):
                if k[0] == frm[0] and isinstance(k[1], int) and frm[1] <= k[1] < frm[1] + n:
                    s.mem[(to[0], to[1] + k[1] - frm[1])] = v

        def new(k, v=None, fromkey=True):
            p = place(k)
            if p is None:
                return None
            if p[1] is not None:
                return p[1], False, st
            s, x = add(p[0])
            if not val or fromkey:
                t = self.text(ai, st, k) if ks == 32 else None
                if ks == 32:
                    if t is None:
                        return None
                    s.mem[(obj(x), 32)] = S(t)
                else:
                    copy(s, (obj(x), 32), ai.addr(k), ks)
            return x, True, s
        if f in ("operator[]", "at", "find", "count") and len(args) == 2:
            r = place(args[1])
            if r is None:
                return None
            if f == "count" and not multi:
                return out(I(int(r[1] is not None)))
            if f == "find" and not multi:
                return out(obj(r[1]) if r[1] else end)
            if f == "at" and r[1] is None:
                return [("throw", "_ZTISt12out_of_range", st)]
            if f in ("at", "operator[]"):
                if r[1] is not None:
                    return out(ai.padd(obj(r[1]), at))
                x, _, s = new(args[1])
                t = self.m.types.get(val)
                for o in range(0, vs) if val else ():
                    s.mem.pop((obj(x), at + o), None)
                self.zero(s, obj(x), at, val, vs)
                return out(ai.padd(obj(x), at), s)
        if f in ("insert", "emplace", "emplace_hint"):
            v = args[-1]
            src = ai.addr(v)
            if f == "emplace" and len(args) == 3 and val:
                return None
            if src is None or len(args) > 3:
                return None
            r = new(v, fromkey=False)
            if r is None:
                return None
            x, fresh, s = r
            if fresh:
                if val:
                    copy(s, (obj(x), 32), src, at - 32 + vs)
                    if (obj(x), 32) not in s.mem:
                        return None
                else:
                    copy(s, (obj(x), 32), src, ks)
            if len(args) == 3 and f != "emplace" or multi:
                return out(obj(x), s)
            return out(("agg", ("agg", ("u",), (0,), obj(x)), (1,), I(int(fresh))), s)
        return None

    def zero(self, s, o, at, ty, n):
        """a value-initialised value: a structure of numbers"""
        if ty in ("unsigned int", "int", "unsigned short", "unsigned long", "long", "short"):
            s.mem[(o, at)] = I(0)
        else:
            t = self.m.types.get(ty) or {}
            for k in [x[2] for x in t.get("members", ()) if x[0] == "member" and x[3] in (1, 2, 4, 8)]:
                s.mem[(o, at + k)] = I(0)
            s.mem[(o, ("z", at, at + n))] = I(0)

    def no_havoc(self, ai, st, addr, inst):
        return (ai.m.base(inst) or "").startswith(("OSMPBF::", "std::_Rb_tree")) or Seqs.no_havoc(self, ai, st, addr, inst)


class Play:
    def __init__(self, ctx, m, flip=False):
        self.ctx, self.m = ctx, m
        w = Tab(m)
        w.flip = flip
        self.r = Run(m, w)
        self.dead = self.r.step("drv_new", T) != "ret"

    def step(self, fn, *args):
        """value of the call"""
        try:
            l = self.r.call(fn, *args, cells={})
        except (Undecided, AnalysisBroken):
            l = None
        if self.r.w.bad:
            b = list(self.r.w.bad.items())[0]
            self.r.w.bad.clear()
            self.ctx.require(False, "strings:use", "%s: %s (%s)" % (self.what, b[1], b[0]))
            self.dead = True
            return None
        if l is None or len(l) != 1:
            self.dead = True
            self.ctx.count("undecided string tables")
            return None
        how, v, kind, st = l[0]
        if how != "ret":
            self.ctx.require(False, "strings:throws", "%s: %s throws (%s)" % (self.what, fn[4:], site(self.m, fn)))
            self.dead = True
            return None
        self.r.mem, self.r.auto = {k: x for k, x in st.mem.items() if k[0][0] != "alloca"}, st.auto
        return v

    def block(self, texts, start=0):
        """record texts, store them, map their ids; start: number of strings recorded before"""
        ctx, m = self.ctx, self.m
        self.what = "a block with the strings %s" % (", ".join("'%s'" % t for t in texts[:8]) or "none") + (" ..." if len(texts) > 8 else "")
        ids, by = {}, {}
        for t in texts:
            if self.dead:
                return
            v = self.step("drv_record", T, self.string(t))
            if self.dead:
                return
            if v is None or v[0] != "i":
                self.dead = True
                return ctx.count("undecided string tables")
            v = v[1] & ((1 << 64) - 1)
            ids.setdefault(t, []).append(v)
            ctx.require(v not in by or by[v] == t, "strings:unique", "%s: '%s' gets the interim id %d of '%s' (%s)" % (self.what, t, v, by.get(v), site(m, "drv_record")))
            ctx.require(v > start, "strings:start", "%s: '%s' gets the interim id %d%s (%s)" % (self.what, t, v, "" if not start else ", although %d strings have been recorded" % start if v else ", which ends the list of tags of a node", site(m, "drv_record")))
            by[v] = t
        self.r.mem.pop((ST, "s"), None)
        self.step("drv_store", T, ST)
        if self.dead:
            return
        l = self.r.mem.get((ST, "s"))
        l = list(l[1][1:]) if l is not None else []
        at = site(m, "drv_store")
        ctx.count("string tables stored")
        ctx.require(l[:1] == [""], "strings:reserved", "%s: the table starts with %s instead of the reserved empty string (%s)" % (self.what, "'%s'" % l[0] if l else "nothing", at))
        old = [x for x in l if x and x not in ids]
        ctx.require(not old, "strings:old", "%s: the table holds '%s' (%s)" % (self.what, (old or [""])[0], at))
        for t, vs in ids.items():
            for v in dict.fromkeys(vs):
                x = self.step("drv_map", T, I(v if v < 1 << 31 else v - (1 << 32)))
                if self.dead:
                    return
                if x is None or x[0] != "i":
                    self.dead = True
                    return ctx.count("undecided string tables")
                n = x[1] & ((1 << 64) - 1)
                ctx.count("strings mapped")
                ctx.require(0 < n < len(l) and l[n] == t, "strings:map", "%s: '%s' is mapped to %d, which is %s in the table (%s)" % (self.what, t, n, "'%s'" % l[n] if n < len(l) else "not", at))
        self.step("drv_clear", T)

    def string(self, t):
        o = obj("=arg%d" % len(self.r.auto))
        self.r.mem[(o, 0)] = S(t)
        return o


def run(ctx):
    m = load()
    al = ["", "b", "a", "c"]
    seqs = [[]] + [list(s) for n in ((1, 2, 3, 4) if ctx.thorough else (1, 2, 3)) for s in itertools.product(al[:3], repeat=n)] + [["x", "highway", "x", "", "yes", "highway", "x", "\xc3\xa4", "X", "x "] * 2, ["s%d" % (k * 7 % 23) for k in range(60)], ["k%d" % k for k in range(40)]]
    for flip in (False, True):
        p = Play(ctx, m, flip)
        for s in seqs:
            if not p.dead:
                p.block(s)
    # many strings: whatever counts them is set as if there had been as many
    p = Play(ctx, m)
    snap = []
    p.what = "many strings"
    for k in range(4):
        if not p.dead:
            p.step("drv_record", T, p.string("n%d" % k))
            snap.append({k[1]: v[1] for k, v in p.r.mem.items() if k[0] == T and isinstance(k[1], int) and v[0] == "i"})
    if not p.dead:
        c = [x for x in snap[-1] if all(x in s for s in snap) and [s[x] for s in snap] == list(range(snap[0][x], snap[0][x] + 4))]
        for start in (254, 255, 32766, 65534, 65535, 65536, 70000):
            q = Play(ctx, m)
            q.r.w.extra = start
            for x in c:
                q.r.mem[(T, x)] = I(start)
            if c or snap:
                q.block(["b", "a", "b", "c", "d"], start)
                ctx.count("large string tables")
    ctx.at_least("string tables stored", 40)


def widths(ctx):
    """ids are never kept in fewer than 32 bits"""
    m = translate("output_pbf.cpp", keep=[r"^Osmium::OSM", r"^Osmium::Output"])
    for f, what in (("drv_record", "interim"), ("drv_map", "final")):
        fn = m.fn(f)
        t = Terms(m, fn)
        rt = model.ret(m, fn, t)
        w = trunc_to(rt)
        ctx.require(w is None or w >= 32, "strings:width", "%s string ids are returned in %s bits (%s)" % (what, w, site(m, f)))
        ld = nocast(rt)
        if ld[0] == "load" and nocast(ld[1])[0] == "call":
            sz = next((i.d["size"] for b in fn.blocks for i in b if i.op == "load" and t.t(i.d["ops"][0]) == ld[1]), 4)
            ctx.require(sz >= 4, "strings:width", "%s string ids are kept in %d bits (%s)" % (what, 8 * sz, site(m, f)))
    fn = m.fn("drv_store")
    t = Terms(m, fn)
    n = 0
    for b in fn.blocks:
        for i in b:
            a = t.t(i.ops[1]) if i.op == "store" else ("",)
            if a[0] != "call" or a[1].split("::")[-1] not in ("operator[]", "at"):
                continue
            n += 1
            v = t.t(i.ops[0])
            ctx.require((trunc_to(v) or 32) >= 32 and i.d.get("size", 4) >= 4, "strings:width", "final string ids are cut to fewer than 32 bits, at %s" % m.loc(i))
            x = nocast(v)
            if x[0] == "op" and x[1] == "add":
                x = nocast(x[2])
            if x[0] == "phi":
                w = bits(m.strs[fn.insts[x[1]].d["ty"]])
                ctx.require(w is None or w >= 32, "strings:width", "final string ids are counted in %s bits, at %s" % (w, m.loc(i)))
    ctx.count("table entries written", n)
