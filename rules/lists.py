"""Shared by C19 and C20: ways, lists and geometries as abstract objects: list lengths and node references are representatives,
positions and everything else are symbols or representatives of equal and different values."""
from ir import translate, AnalysisBroken, FOREACH, STDFN
from absint import I, AbsInt, St
from scenario import obj, play
from seqs import Seqs, Outside, ITERS, data
from strings import S
from terms import Terms
from rules.model import root, off, ret
from rules.c13 import cell_of

WAY, LIST, REL, OBJ, GEO = obj("W"), obj("L"), obj("R"), obj("O"), obj("G")


def load():
    return translate("lists.cpp", also=(FOREACH, STDFN, r"boost::(addressof|begin|end|rbegin|rend|range|range_adl_barrier|integral_constant|range_detail|detail|iterators)\b") + ITERS, inc=("geos_stub",))


def vec_at(m, getter):
    """offset of the vector whose begin() a getter returns"""
    fn = m.fn(getter)
    T = Terms(m, fn)
    for b in fn.blocks:
        for i in b:
            if i.is_call and (m.short(i) or "").startswith("std::vector") and len(i.args) >= 1:
                t = T.t(i.args[0])
                if root(t) == ("arg", 0):
                    return off(t)
    raise AnalysisBroken("the vector of %s cannot be found" % getter)


def ptr_at(m, getter):
    """offset of a member to which a getter returns a reference"""
    fn = m.fn(getter)
    t = ret(m, fn, Terms(m, fn))
    if root(t) == ("arg", 0):
        return off(t)
    raise AnalysisBroken("the member returned by %s cannot be found" % getter)


class Lists:
    def __init__(self, m):
        self.m = m
        self.ls = vec_at(m, "drv_get_lbegin")
        self.ts = vec_at(m, "drv_get_tbegin")
        self.ms = vec_at(m, "drv_get_mbegin")
        self.wl = ptr_at(m, "drv_get_nodes")
        self.ot = ptr_at(m, "drv_get_tags")
        self.pos = ptr_at(m, "drv_get_pos")
        self.ref = cell_of(m, m.fn("drv_get_ref"))
        self.x, self.y = cell_of(m, m.fn("drv_get_x")), cell_of(m, m.fn("drv_get_y"))
        self.wn = m.types["Osmium::OSM::WayNode"]["size"]
        self.mem = m.types["Osmium::OSM::RelationMember"]["size"]
        self.tag = m.types["Osmium::OSM::Tag"]["size"]
        if None in (self.ref, self.x, self.y):
            raise AnalysisBroken("the fields of way nodes cannot be found")

    def nodes(self, w, base, at, items, name="n"):
        """cells of a node list at (base, at); items: [(ref, x, y)]"""
        mem = w.vector(base, at + self.ls, name, self.wn, len(items))
        d = data(name)
        for k, (r, x, y) in enumerate(items):
            mem[(d, k * self.wn + self.ref)] = I(r)
            mem[(d, k * self.wn + self.pos + self.x)] = x if isinstance(x, tuple) else I(x)
            mem[(d, k * self.wn + self.pos + self.y)] = y if isinstance(y, tuple) else I(y)
        return mem

    def tags(self, w, base, at, items, name="t"):
        mem = w.vector(base, at + self.ts, name, self.tag, len(items))
        d = data(name)
        ko, vo = self.strs()
        for k, (x, y) in enumerate(items):
            mem[(d, k * self.tag + ko)] = S(x)
            mem[(d, k * self.tag + vo)] = S(y)
        return mem

    def strs(self):
        r = []
        for g in ("drv_get_tkey", "drv_get_tvalue"):
            fn = self.m.fn(g)
            T = Terms(self.m, fn)
            o = None
            for b in fn.blocks:
                for i in b:
                    if i.is_call and i.args and root(T.t(i.args[0])) == ("arg", 0):
                        o = off(T.t(i.args[0]))
            if o is None:
                raise AnalysisBroken("the key and value of a tag cannot be found")
            r.append(o)
        return r

    def members(self, w, base, at, n, name="m"):
        return w.vector(base, at + self.ms, name, self.mem, n)


def run_fn(m, w, fn, args, mem, auto=(), maxstates=60000):
    """[(how, value, kind, state)] of one call"""
    ai = AbsInt(m, m.fn(fn), w, name="r", args=args)
    ai.maxstates = maxstates
    s = St()
    s.mem, s.auto = dict(mem), auto
    try:
        return [(how, e.env.get("ret"), kind, e) for how, kind, e, inst in ai.run(s)]
    except Outside:
        return []
