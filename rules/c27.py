"""Every conversion between floating point and fixed point coordinates is reduced to a term over its argument (scale, rounding,
narrowing casts) and compared with the representation's scale; setters, getters and constructors are interpreted abstractly to
see which axis they touch; bounding boxes are interpreted abstractly over all order types of short sequences of positions.
Nothing is executed."""
import itertools
from fractions import Fraction
from ir import translate, FOREACH, STDFN, AnalysisBroken, strip_params
from absint import I, AbsInt, St
from scenario import World, play, obj, SHARED
from terms import Terms, nocast, show
from rules.outpbf import mono, trunc_to, setter, getter
from rules import outpbf
from rules.handlers import site
from rules.model import root, off
from rules.common import KEEP_OSM
from rules.c13 import cell_of

INVALID = 0x7fffffff
SCALE = 10000000


def casts(t):
    """all casts in a term"""
    r = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 5 and x[0] == "cast":
                r.append(x)
            for y in x:
                go(y)
    go(t)
    return r


def shifted(a):
    """the constant added before the result is cut, or None"""
    while a[0] == "cast":
        a = a[4]
    if a[0] == "call" and (a[1] or "").startswith("llvm.fmuladd") and a[2][2][0] == "f":
        return a[2][2][1]
    if a[0] == "op" and a[1] in ("fadd", "fsub"):
        for x in a[2:4]:
            if x[0] == "f":
                return x[1] if a[1] == "fadd" else -x[1]
    return None


def biased(T, t):
    """an integer conversion that cuts what was shifted by a half regardless of its sign"""
    if all(c[1] not in ("fptosi", "fptoui") or shifted(c[4]) is None for c in casts(t)):
        return False
    # other conversions of the function may be for the other sign
    by = {shifted(c[4]) for b in T.fn.blocks for i in b for c in casts(T.ti(i) if i.op in ("fptosi", "fptoui") else None) if c[1] in ("fptosi", "fptoui")} - {None}
    return not (any(x > 0 for x in by) and any(x < 0 for x in by))


class Conv:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m

    def judge(self, key, what, T, t, scale, source, rounded, loc):
        """t: term; source: predicate on the converted value"""
        ctx = self.ctx
        if any(c[1] == "fptrunc" or c[3] == "float" for c in casts(t)):
            ctx.require(False, key + ":single", "%s goes through single precision (%s)" % (what, loc))
            return
        if biased(T, t):
            ctx.require(False, key + ":round", "%s cuts instead of rounding negative values (%s)" % (what, loc))
            return
        mm = mono(t)
        if mm is None or mm.den or len(mm.num) != 1 or nocast(mm.num[0])[0] not in ("arg", "load", "call"):
            ctx.count("undecided conversions")
            return
        ctx.count("conversions")
        if not ctx.require(source(mm.num[0]), key + ":source", "%s is computed from %s (%s)" % (what, show(mm.num[0]), loc)):
            return
        ctx.require(abs(mm.c - scale) <= scale / 10 ** 12, key + ":scale", "%s is scaled by %s instead of %s (%s)" % (what, float(mm.c), float(scale), loc))
        if rounded:
            ctx.require(mm.round and not mm.chop, key + ":round", "%s is not rounded to the nearest value (%s)" % (what, loc))
        else:
            ctx.require(not mm.round and not mm.chop and not getattr(mm, "intdiv", False) and not mm.lossy, key + ":exact", "%s is cut to whole numbers (%s)" % (what, loc))


def stores_to(T, fn):
    """offset from the first argument -> terms stored there"""
    r = {}
    for b in fn.blocks:
        for i in b:
            if i.op == "store":
                t = T.t(i.ops[1])
                if root(t) == ("arg", 0):
                    r.setdefault(off(t), []).append(T.t(i.ops[0]))
    return r


def run(ctx):
    ctx.rules = ["floating point to fixed point: scale, rounding to nearest, axis", "fixed point to floating point: scale, axis", "positions keep their axes when copied, set and read",
                 "bounds of all order types of positions are minimum and maximum", "bounding boxes of file headers: scale, rounding, axis"]
    ctx.assumptions = ["the mathematical library rounds as specified", "coordinates in use are small enough for 32 bits"]
    m = translate("position.cpp", also=(FOREACH, STDFN) + SHARED)
    C = Conv(ctx, m)
    P, Q, N = obj("P"), obj("Q"), obj("N")
    w = World(m)
    gx, gy = cell_of(m, m.fn("drv_get_x")), cell_of(m, m.fn("drv_get_y"))
    if gx is None or gy is None or gx == gy:
        raise AnalysisBroken("the coordinates of a position cannot be found")

    def final(calls, mem=None):
        st = play(m, w, mem or {}, calls)
        return st[0] if len(st) == 1 else None

    def pos(o, x, y, at=0):
        return {(o, at + gx): I(x), (o, at + gy): I(y)}
    AX = {gx: "longitude", gy: "latitude"}
    # ---- integers: constructors, setters, copies ------------------------------------------------------------
    A = (-1234567, 7654321)

    def same(key, what, fn, calls, o, x, y, at=0, mem=None):
        s = final(calls, mem)
        got = None if s is None else tuple(s.mem.get((o, at + k)) for k in (gx, gy))
        if got is None or any(g is None or g[0] != "i" for g in got):
            ctx.count("undecided copies")
            return
        ctx.count("copies examined")
        ctx.require(got == (I(x), I(y)), key, "%s gives (%d, %d) for (%d, %d) (%s)" % (what, got[0][1], got[1][1], x, y, site(m, fn)))
    same("new:32", "constructing a position from 32 bit coordinates", "drv_new32", [("drv_new32", [P, I(A[0]), I(A[1])], {})], P, *A)
    same("new:64", "constructing a position from 64 bit coordinates", "drv_new64", [("drv_new64", [P, I(A[0]), I(A[1])], {})], P, *A)
    same("set:x", "setting x", "drv_set_x", [("drv_set_x", [P, I(A[0])], {})], P, A[0], A[1], 0, pos(P, 1, A[1]))
    same("set:y", "setting y", "drv_set_y", [("drv_set_y", [P, I(A[1])], {})], P, A[0], A[1], 0, pos(P, A[0], 1))
    for k, what in (("node", "a node"), ("wn", "a way node"), ("pt", "a point geometry")):
        mk = "drv_%s_set" % k if k == "node" else "drv_%s_new" % k
        same("keep:" + k, "the position of %s" % what, mk, [(mk, [N, P], pos(P, *A)), ("drv_%s_get" % k, [Q, N], {})], Q, *A)
    same("keep:wn set", "the position set for a way node", "drv_wn_set", [("drv_wn_set", [N, P], pos(P, *A)), ("drv_wn_get", [Q, N], {})], Q, *A)
    for x, y in ((1, 2), (INVALID, INVALID), (INVALID, 2), (1, INVALID), (0, 0), (-INVALID, -INVALID), (-INVALID - 1, 5)):
        ai = AbsInt(m, m.fn("drv_defined"), w, name="d", args=[P])
        s = St()
        s.mem, s.auto = pos(P, x, y), ()
        v = {e.env.get("ret") for how, kind, e, i in ai.run(s) if how == "ret"}
        if len(v) != 1 or next(iter(v)) is None or next(iter(v))[0] != "i":
            ctx.count("undecided copies")
            continue
        want = x != INVALID and y != INVALID
        ctx.require(bool(next(iter(v))[1] & 1) == want, "defined", "the position (%d, %d) is %sdefined (%s)" % (x, y, "not " if want else "", site(m, "drv_defined")))
    # ---- where objects keep their position --------------------------------------------------------------------
    at = {}
    for k, fn in (("nd", "drv_node_set"), ("wn", "drv_wn_set"), ("pt", "drv_pt_new")):
        s = final([(fn, [N, P], pos(P, 111, 222))])
        if s is not None:
            at[k] = {v[1]: a[1] for a, v in s.mem.items() if a[0] == N and v in (I(111), I(222))}
    at["from"] = {111: gx, 222: gy}
    # ---- fixed to floating -----------------------------------------------------------------------------------
    for k, who in (("from", "a position"), ("nd", "a node"), ("wn", "a way node"), ("pt", "a point geometry")):
        for ax, val in (("lon", 111), ("lat", 222)):
            fn = m.fn("drv_%s_%s" % (k, ax))
            T = Terms(m, fn)
            o = at.get(k, {}).get(val)
            rets = [T.t(i.ops[0]) for b in fn.blocks for i in b if i.op == "ret" and i.ops]
            if o is None or len(rets) != 1:
                ctx.count("undecided conversions")
                continue

            def src(t):
                t = nocast(t)
                return t[0] == "load" and root(t[1]) == ("arg", 0) and off(t[1]) == o
            t = nocast(rets[0]) if rets[0][0] == "cast" else rets[0]
            loads = nocast(t)
            C.judge("to:%s:%s" % (k, ax), "the %s of %s" % ("longitude" if ax == "lon" else "latitude", who), T, rets[0], Fraction(1, SCALE), src, False, site(m, "drv_%s_%s" % (k, ax)))
    # ---- floating to fixed -------------------------------------------------------------------------------------
    for fn, want in (("drv_to_both", {gx: 1, gy: 2}), ("drv_to_lon", {gx: 1}), ("drv_to_lat", {gy: 1}), ("drv_to_nodelon", {at.get("nd", {}).get(111): 1}), ("drv_to_nodelat", {at.get("nd", {}).get(222): 1})):
        T = Terms(m, m.fn(fn))
        st = stores_to(T, m.fn(fn))
        loc = site(m, fn)
        name = {"drv_to_both": "constructing a position"}.get(fn, "setting the %s of a %s" % ("longitude" if fn.endswith("lon") else "latitude", "node" if "node" in fn else "position"))
        if not st or None in want:
            ctx.count("undecided conversions")
            continue
        ctx.require(set(st) <= set(want), "axis:" + fn[4:], "%s changes another coordinate (%s)" % (name, loc))
        for o, a in want.items():
            if o not in st:
                ctx.count("undecided conversions")
                continue
            for t in st[o]:
                if (trunc_to(t) or 32) < 32:
                    ctx.require(False, "fix:%s:width" % fn[4:], "%s keeps only %d bits (%s)" % (name, trunc_to(t), loc))
                C.judge("fix:%s:%d" % (fn[4:], a), name, T, t, Fraction(SCALE), lambda x: nocast(x) == ("arg", a), True, loc)
    # ---- bounds -------------------------------------------------------------------------------------------------
    B = obj("B")
    vals = [-5, 0, 7] if not ctx.thorough else [-5, 0, 7, 9]
    points = [(x, y) for x in vals for y in vals]
    undef = [(INVALID, INVALID), (INVALID, 3), (3, INVALID)]
    seqs = [[]] + [[p] for p in points + undef] + [[p, q] for p in points for q in points] + [[p, u, q] for p in points[::3] for u in undef for q in points[1::3]] + [[u, p] for u in undef for p in points[:3]] + [[u, v] for u in undef for v in undef[:1]]
    tri = [list(x) for x in itertools.product(points[::2], repeat=3)]
    seqs += tri if ctx.thorough else tri[::5]
    big = [(-1800000000, -900000000), (1800000000, 900000000), (0, 0), (-INVALID - 1, 1)]
    seqs += [[p, q] for p in big for q in big]
    s = final([("drv_f_new", [B], {})])
    inner = min([a[1] for a, v in s.mem.items() if a[0] == B and v == I(INVALID) and isinstance(a[1], int)], default=gx) - gx if s is not None else 0
    BB = {"bounds": B, "the bounding box handler": ("p", B, inner) if inner else B}
    for what, new, ext in (("bounds", "drv_b_new", "drv_b_extend"), ("the bounding box handler", "drv_f_new", "drv_f_node")):
        for s in seqs if what == "bounds" else seqs[:60]:
            calls = [(new, [B], {})]
            for k, p in enumerate(s):
                o = obj("p%d" % k)
                if what == "bounds":
                    calls.append((ext, [B, o], pos(o, *p)))
                else:
                    c = pos(o, p[0], p[1], at.get("nd", {}).get(111, 0) - gx)
                    c[(obj("ptr%d" % k), 0)] = o
                    calls.append((ext, [B, obj("ptr%d" % k)], c))
            r = final(calls + [("drv_b_bl", [P, BB[what]], {}), ("drv_b_tr", [Q, BB[what]], {})])
            got = None if r is None else [r.mem.get((o, k)) for o in (P, Q) for k in (gx, gy)]
            if got is None or any(g is None or g[0] != "i" for g in got):
                ctx.count("undecided bounds")
                continue
            ctx.count("sequences of positions")
            d = [p for p in s if INVALID not in p]
            got = [g[1] for g in got]
            if d:
                want = [min(p[0] for p in d), min(p[1] for p in d), max(p[0] for p in d), max(p[1] for p in d)]
                ctx.require(got == want, "bounds" if what == "bounds" else "find bbox", "%s of the positions %s are %s instead of %s (%s)" % (what, s, got, want, site(m, ext)))
            else:
                ctx.require(INVALID in got[:2] and INVALID in got[2:], "bounds:undefined", "%s of %s are defined: %s (%s)" % (what, s or "no positions", got, site(m, ext)))
    writer(ctx)
    reader(ctx)
    ctx.at_least("conversions", 8)
    ctx.at_least("sequences of positions", 100)


CORNER = {"left": ("lon", "bottom_left"), "bottom": ("lat", "bottom_left"), "right": ("lon", "top_right"), "top": ("lat", "top_right")}


def corner(T, fn, a):
    """the corner stored in an alloca, or None"""
    got = set()
    for b in fn.blocks:
        for i in b:
            if i.op == "store" and T.t(i.ops[1]) == a or i.op == "store" and root(T.t(i.ops[1])) == a:
                t = nocast(T.t(i.ops[0]))
                got.add(t[1].split("::")[-1] if t[0] == "call" and t[1] else None)
            if i.is_call and "memcpy" in (i.d.get("callee") and (T.m.short(i) or "")) and T.t(i.args[0]) == a:
                got.add(None)
    return got.pop() if len(got) == 1 else None


def writer(ctx):
    m = outpbf.modules(ctx)
    C = Conv(ctx, m)
    fn = m.fn("drv_init")
    T = Terms(m, fn)
    for i in fn.calls():
        s = setter(m, i)
        if s and s[0] == "HeaderBBox":
            axis, side = CORNER[s[2]]
            t = T.t(i.args[1])
            what = "the %s side of the bounding box written to a PBF header" % s[2]
            mm = mono(t)
            if mm is not None and len(mm.num) == 1 and getter(mm.num[0]) in ("Position::x", "Position::y"):
                ok = getter(mm.num[0]) == "Position::" + {"lon": "x", "lat": "y"}[axis]
                ctx.require(ok and mm.c == 100 and not mm.den, "header:" + s[2], "%s is %s (%s)" % (what, mm, m.loc(i)))
                ctx.count("conversions")
            else:
                C.judge("header:" + s[2], what, T, t, Fraction(10 ** 9), lambda x: getter(x) == "Position::" + axis, True, m.loc(i))
            if mm is not None and len(mm.num) == 1 and nocast(mm.num[0])[0] == "call":
                c = corner(T, fn, nocast(mm.num[0])[2][0])
                if c is None:
                    ctx.count("undecided conversions")
                else:
                    ctx.require(c == side, "header:corner", "%s comes from the %s corner (%s)" % (what, c.replace("_", " "), m.loc(i)))


def reader(ctx):
    from rules.c02 import Guards
    m = translate("input.cpp", keep=KEEP_OSM)
    fn = m.fn("drv_pbf")
    T = Terms(m, fn)
    seen = set()
    for i in fn.calls():
        if m.short(i) == "Osmium::OSM::Position::Position" and len(i.args) == 3:
            ms = [mono(T.t(a)) for a in i.args[1:]]
            side = [nocast(x.num[0])[1].split("::")[-1] if x is not None and len(x.num) == 1 and nocast(x.num[0])[0] == "call" and "HeaderBBox" in (nocast(x.num[0])[1] or "") else None for x in ms]
            if None in side:
                if any(side):
                    ctx.count("undecided conversions")
                continue
            seen |= set(side)
            for x, s, axes in zip(ms, side, (("left", "right"), ("bottom", "top"))):
                ctx.count("conversions")
                ctx.require(s in axes, "read header:axis", "the %s side of the bounding box of a PBF header becomes a %s (%s)" % (s, "longitude" if axes[0] == "left" else "latitude", m.loc(i)))
                ctx.require(x.c == Fraction(1, 100) and not x.den, "read header:scale", "the %s side of the bounding box of a PBF header is scaled by %s (%s)" % (s, x.c, m.loc(i)))
    if seen:
        ctx.require(len(seen) == 4, "read header:sides", "the bounding box of a PBF header is read without its %s side" % " and ".join(sorted(set(CORNER) - seen)))
    else:
        ctx.count("undecided conversions")
    # XML
    for f in m.fns.values():
        calls = [i for i in f.calls() if (m.short(i) or "") in ("Osmium::OSM::Position::lon", "Osmium::OSM::Position::lat") and len(i.args) == 2]
        if not calls or f.dem.startswith("Osmium::OSM::"):
            continue
        g = Guards(ctx, m, f)
        for i in calls:
            names = [n for n in g.names(i.blk, "attr")]
            want = {"minlon": "lon", "maxlon": "lon", "lon": "lon", "minlat": "lat", "maxlat": "lat", "lat": "lat"}
            ns = [n for n in names if n in want]
            if len(ns) != 1:
                ctx.count("undecided conversions")
                continue
            ctx.count("conversions")
            got = m.short(i).split("::")[-1]
            ctx.require(got == want[ns[0]], "xml bounds:axis", "the attribute %s sets the %s of a position (%s)" % (ns[0], got, m.loc(i)))
            t = g.T.t(i.args[1])
            if t[0] == "call" and t[1] in ("atof", "strtod"):
                ctx.require(g.value_of(t[2][0], g.names(i.blk, "attr")[ns[0]]), "xml bounds:value", "the attribute %s is read from %s (%s)" % (ns[0], show(t[2][0]), m.loc(i)))
            elif t[0] == "cast" and any(c[1] in ("sitofp", "fptrunc") for c in casts(t)):
                ctx.require(False, "xml bounds:value", "the attribute %s is cut to %s (%s)" % (ns[0], show(t), m.loc(i)))
