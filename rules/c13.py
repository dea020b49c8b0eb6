"""Every less-than relation is interpreted abstractly for all order types of the compared fields of two objects (a finite
set: relative order, sign, equality of absolute values, extreme values). The resulting table decides irreflexivity,
asymmetry, transitivity and transitivity of incomparability over all pairs and triples, which objects are equivalent, and
whether the relation on shared pointers is the one on the objects."""
from ir import translate, AnalysisBroken
from absint import AbsInt, St, Hooks, I
from orders import Orders, outcome, laws
from terms import Terms, nocast
from rules.model import root, off
import itertools

IDS = [-(2 ** 63 - 1), -2, -1, 0, 1, 2, 2 ** 63 - 1]
VERS = [0, 1, 2, 2 ** 31, 2 ** 32 - 1]
XS = [-(2 ** 31), -1, 0, 1, 2 ** 31 - 1]
LESS = r"(^|[ &*>])std::less<"
A0, A1 = ("s", ("arg", 0)), ("s", ("arg", 1))


def cell_of(m, fn):
    """(offset, size, shift) of the field a getter returns"""
    T = Terms(m, fn)
    r = [b[-1] for b in fn.blocks if b[-1].op == "ret"]
    if len(r) != 1:
        return None
    o, hi = r[0].ops[0], 0
    while "i" in o:
        i = fn.insts[o["i"]]
        if i.op == "load":
            t = T.t(i.ops[0])
            if root(t) == ("arg", 0) and not (t[0] == "gep" and t[3]):
                return off(t) + hi
            return None
        if i.op in ("trunc", "zext", "sext"):
            o = i.ops[0]
        elif i.op == "lshr":
            c = T.t(i.ops[1])
            if c != ("c", 32):
                return None
            hi += 4
            o = i.ops[0]
        else:
            return None
    return None


class Shared(Orders):
    """comparing the owners of shared pointers is comparing addresses"""
    def call(self, ai, st, inst, name, args):
        if ("owner_before" in name or "shared_count" in name and "operator<" in name) and len(args) == 2:
            def addr(v):
                b = v[1] if v[0] == "p" else v
                return self.addresses.get(st.mem.get((b, 0))) if b[0] == "s" else None
            a, b = addr(args[0]), addr(args[1])
            if a is not None and b is not None:
                return [("ret", I(int(a < b)), st)]
        return Orders.call(self, ai, st, inst, name, args)


class Cmp:
    def __init__(self, ctx, m, name, what, fields, items, keys=None, less=("lt", "less")):
        self.ctx, self.m, self.name, self.what = ctx, m, name, what
        self.fields = fields        # [(field, width, getter)]
        self.items = items          # list of tuples
        self.offs = {}
        for f, w, g in fields:
            o = cell_of(m, m.fn(g))
            if o is None:
                raise AnalysisBroken("cannot find the field %s of a %s" % (f, what))
            self.offs[f] = o

    def cells(self, base, tag):
        return {(base, self.offs[f]): ("s", ("f", f + tag, w)) for f, w, _ in self.fields}

    def table(self, fn, ptr=False, other=(0, 0), addr=(1, 2)):
        """{(item, item): bool or None}; other, addr: representatives of all other fields and of the addresses of the objects"""
        A, B = (("s", "objA"), ("s", "objB")) if ptr else (A0, A1)
        cells = {}
        cells.update(self.cells(A, "a"))
        cells.update(self.cells(B, "b"))
        if ptr:
            cells[(A0, 0)], cells[(A1, 0)] = A, B
        out = {}
        for a in self.items:
            for b in self.items:
                asg = {f + "a": x for (f, _, _), x in zip(self.fields, a)}
                asg.update({f + "b": x for (f, _, _), x in zip(self.fields, b)})
                res, h = outcome(self.m, fn, cells, asg, Shared, others=dict(zip((A, B), other)), addresses=dict(zip((A, B), addr)))
                vals = {v for how, v, _ in res if how == "ret"}
                if len(vals) != 1 or None in vals:
                    out[a, b] = None
                else:
                    out[a, b] = bool(vals.pop() & 1)
                self.ctx.count("order types examined")
        return out

    def show(self, t):
        return "(%s)" % ", ".join("%s=%d" % (f, x) for (f, _, _), x in zip(self.fields, t))

    def decide(self, drv, equiv=None, order=None, ptr=False):
        ctx = self.ctx
        key = "%s:%s" % (drv, self.what)
        what = "the less-than relation of %ss%s" % (self.what, " through shared pointers" if ptr else "")
        t = self.table(self.m.fn(drv), ptr)
        for kw, why in (({"other": (0, 1)}, "another field"), ({"other": (1, 0)}, "another field"), ({"addr": (2, 1)}, "where the objects are in memory")):
            u = self.table(self.m.fn(drv), ptr, **kw)
            c = next(((a, b) for a in self.items for b in self.items if a != b and t[a, b] is not None and u[a, b] is not None and t[a, b] != u[a, b]), None)
            ctx.require(c is None, key + ":depends", "%s depends on %s for %s" % (what, why, c and " and ".join(self.show(x) for x in c)))
        if any(v is None for v in t.values()):
            ctx.count("undecided comparisons", sum(v is None for v in t.values()))
            return None
        bad = laws(self.items, t)
        for law in ("irreflexive", "asymmetric", "transitive", "transitive in its incomparability"):
            c = bad.get(law)
            ctx.require(c is None, "%s:%s" % (key, law), "%s is not %s: %s" % (what, law, c and ", ".join(self.show(x) for x in c)))
        if equiv:
            c = next(((a, b) for a in self.items for b in self.items if not t[a, b] and not t[b, a] and not equiv(a, b)), None)
            ctx.require(c is None, key + ":distinguish", "%s does not distinguish %s" % (what, c and " and ".join(self.show(x) for x in c)))
            c = next(((a, b) for a in self.items for b in self.items if (t[a, b] or t[b, a]) and a == b), None)
        if order:
            c = next(((a, b) for a in self.items for b in self.items if order(a, b) is not None and t[a, b] != order(a, b)), None)
            ctx.require(c is None, key + ":order", "%s orders %s the wrong way round" % (what, c and " and ".join(self.show(x) for x in c)))
        ctx.count("relations decided")
        return t


def by_id(a, b):
    """objects are ordered by absolute id, then by version; None: not prescribed"""
    if abs(a[0]) != abs(b[0]):
        return abs(a[0]) < abs(b[0])
    if a[0] != b[0]:
        return None
    return a[1] < b[1]


def run(ctx):
    ctx.rules = ["a less-than relation violates a law of strict weak orderings", "different objects are equivalent", "objects are not ordered by absolute id and version",
                 "the relation through shared pointers differs"]
    ctx.assumptions = ["the comparisons depend on the fields only through comparisons, absolute values and machine arithmetic, so a finite set of representatives covers all order types",
                       "ids are not the smallest 64 bit integer, whose absolute value does not exist"]
    m = translate("order.cpp", also=(r"boost::shared_ptr<[^()]*>::(operator->|operator\*|get)\(\) const$", r"(^|[ &*>])std::(swap|min|max|move|forward|exchange)(<|\()", LESS, r"boost::operator", r"std::tie<|std::make_tuple<|std::tuple<|std::_Tuple|std::_Head_base|std::__tuple_compare|std::get<|std::__get_helper|std::pair<|std::make_pair|bool std::operator"))
    vers = VERS
    objs = list(itertools.product(IDS, vers))
    eq = lambda a, b: a == b
    for k in ("node", "way", "relation"):
        c = Cmp(ctx, m, k, k, [("id", 64, "drv_get_%s_id" % k), ("version", 32, "drv_get_%s_version" % k)], objs)
        t = c.decide("drv_lt_" + k, eq, by_id)
        c.decide("drv_less_" + k, eq, by_id)
        p = c.decide("drv_pless_" + k, eq, by_id, ptr=True)
        if t and p:
            d = next((x for x in t if t[x] != p[x]), None)
            ctx.require(d is None, "ptr:" + k, "%ss compare differently through shared pointers: %s" % (k, d and " and ".join(c.show(x) for x in d)))
    xs = XS
    c = Cmp(ctx, m, "position", "position", [("x", 32, "drv_get_position_x"), ("y", 32, "drv_get_position_y")], list(itertools.product(xs, xs)))
    c.decide("drv_lt_position", eq)
    c.decide("drv_less_position", eq)
    s3 = [-1, 2 ** 31 - 1]
    seg = list(itertools.product(s3, s3, s3, s3))
    if ctx.thorough:
        seg += [x for x in itertools.product([-5, 0, 7], repeat=4)]
    seg = [x for x in seg if x[:2] <= x[2:]]
    c = Cmp(ctx, m, "segment", "segment", [("x1", 32, "drv_get_segment_x1"), ("y1", 32, "drv_get_segment_y1"), ("x2", 32, "drv_get_segment_x2"), ("y2", 32, "drv_get_segment_y2")], seg)
    c.decide("drv_lt_segment", eq)
    c.decide("drv_less_segment", eq)
    ids = [(x,) for x in IDS]
    for k, what, g in (("waynode", "way node", "drv_get_waynode_ref"), ("member", "relation member", "drv_get_member_id")):
        c = Cmp(ctx, m, k, what, [("id", 64, g)], ids)
        c.decide("drv_lt_" + k, eq)
        c.decide("drv_less_" + k, eq)
    segment_ctor(ctx, m)
    ctx.at_least("relations decided", 8)


def segment_ctor(ctx, m):
    """the smaller position comes first in an undirected segment, whatever the order of the arguments"""
    fn = m.fn("drv_new_segment")
    S, P, Q = A0, A1, ("s", ("arg", 2))
    ox, oy = cell_of(m, m.fn("drv_get_position_x")), cell_of(m, m.fn("drv_get_position_y"))
    so = [cell_of(m, m.fn("drv_get_segment_" + f)) for f in ("x1", "y1", "x2", "y2")]
    vals = [-(2 ** 31), 0, 2 ** 31 - 1]
    for p in itertools.product(vals, repeat=2):
        for q in itertools.product(vals, repeat=2):
            cells = {(P, ox): ("s", ("f", "px", 32)), (P, oy): ("s", ("f", "py", 32)), (Q, ox): ("s", ("f", "qx", 32)), (Q, oy): ("s", ("f", "qy", 32))}
            res, h = outcome(m, fn, cells, {"px": p[0], "py": p[1], "qx": q[0], "qy": q[1]})
            for how, v, st in res:
                if how != "ret":
                    continue
                got = []
                for o in so:
                    x = h.loaded(None, st, (S, o), st.mem.get((S, o)), 4)
                    try:
                        got.append(h.value(x))
                    except Exception:
                        got.append(None)
                if None in got:
                    ctx.count("undecided segments")
                    continue
                want = list(min(p, q)) + list(max(p, q))
                ctx.count("order types examined")
                ctx.require(got == want, "segment:normal", "a segment from (%d %d) to (%d %d) is stored as (%d %d) (%d %d): the smaller position does not come first" % (tuple(p) + tuple(q) + tuple(got)))
