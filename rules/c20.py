"""Functions on lists are interpreted abstractly with lists of every small length whose elements are representatives: every
access through an index, iterator or reference is compared with the length, and the answers for empty and short lists with
what the property says. Nothing is executed."""
from absint import I
from seqs import Seqs, data
from strings import S
from scenario import obj
from rules.lists import *
from rules.handlers import site

UNDEF = 0x7fffffff


class Shapes(Seqs):
    """calls that create a shape are events: (vertices, length of the arrays given)"""
    def call(self, ai, st, inst, name, args):
        b = ai.m.base(inst) or ""
        if b.startswith("SHPCreate"):
            k = 1 if b == "SHPCreateSimpleObject" else 5
            n = self.num(ai, st, args[k])
            have = []
            for a in args[k + 1:k + 3]:
                p = ai.addr(a)
                v = self.vecs.get(p[0]) if p else None
                i = self.info(st, v[0]) if v else None
                have.append(None if i is None or not isinstance(p[1], int) else i[1] - p[1] // v[1])
            self.made.append((n, have))
            return [("ret", ai.sy(inst), st)]
        return Seqs.call(self, ai, st, inst, name, args)


def run(ctx):
    ctx.rules = ["an element outside a list is accessed", "an empty list is closed, a list is closed without equal ends", "a polygon is built from an open ring", "a shape is built from too few nodes",
                 "a member beyond the end is found", "a tag that is not there is found"]
    ctx.assumptions = ["lists of up to five elements stand for all lengths: the functions index from the ends or step through the list"]
    m = load()
    L = Lists(m)
    lens = range(0, 6 if ctx.thorough else 5)

    def case(fn, args, cells, what, make=Shapes):
        w = make(m)
        w.made = []
        mem = {}
        for c in cells:
            mem.update(c(w))
        r = run_fn(m, w, fn, args, mem)
        ctx.count("cases")
        for loc, how in w.bad.items():
            ctx.violation("access:" + fn[4:], "%s %s (at %s)" % (what, how, loc))
        ctx.ok("access:" + fn[4:], not w.bad)
        return w, r

    def shape(refs):
        return "an empty list" if not refs else "a list of nodes %s" % (refs,)
    lists = [[]] + [[7]] + [[7, 7], [7, 8]] + [[7, 8, 7], [7, 8, 9], [7, 7, 8], [8, 7, 7], [7, 7, 7]] + [[7, 8, 9, 7], [7, 8, 9, 10], [7, 8, 8, 9], [7, 7, 8, 9], [7, 8, 9, 9]]
    if ctx.thorough:
        lists += [[1, 2, 3, 4, 1], [1, 2, 3, 4, 5], [1, 2, 1, 2, 5], [0, 0], [0, 1], [-1, -1], [-1, 1], [2 ** 40, 2 ** 40], [2 ** 40, 1 + 2 ** 40], [1, 1 + 2 ** 32], [2 ** 62, -2 ** 62]]
    else:
        lists += [[0, 0], [-1, 1], [5, 5 + 2 ** 32]]
    for refs in lists:
        pts = [(r, 10 * r % 1000, 3 * r % 700) for r in refs]
        closed = bool(refs) and refs[0] == refs[-1]
        for fn, base, at in (("drv_list_closed", LIST, 0), ("drv_way_closed", WAY, L.wl)):
            w, r = case(fn, [base], [lambda w: L.nodes(w, base, at, pts)], "asking whether %s is closed" % shape(refs))
            vals = {v for how, v, _, _ in r if how == "ret"}
            if len(vals) != 1 or next(iter(vals))[0] != "i":
                ctx.count("undecided answers")
            elif not w.bad:
                got = bool(next(iter(vals))[1] & 1)
                ctx.require(got == closed, "closed:" + fn[4:], "%s is %sclosed (%s)" % (shape(refs), "" if got else "not ", site(m, fn)))
        for posn in (True, False):
            p = [(r, x if posn else UNDEF, y if posn else UNDEF) for r, x, y in pts]
            w, r = case("drv_list_positions", [LIST], [lambda w: L.nodes(w, LIST, 0, p)], "asking %s for positions" % shape(refs))
            vals = {v for how, v, _, _ in r if how == "ret"}
            if not refs and vals and not w.bad:
                if all(v[0] == "i" for v in vals):
                    ctx.require(vals == {I(0)}, "positions", "an empty list has positions (%s)" % site(m, "drv_list_positions"))
        case("drv_length", [LIST], [lambda w: L.nodes(w, LIST, 0, pts)], "the length of %s" % shape(refs))
        if len(refs) != 1:
            for fn, base, at in (("drv_polygon_list", LIST, 0), ("drv_polygon_way", WAY, L.wl)):
                for rev in (0, 1):
                    w, r = case(fn, [GEO, base, I(rev)], [lambda w: L.nodes(w, base, at, pts)], "building a polygon from %s" % shape(refs))
                    hows = {how for how, _, _, _ in r}
                    if len(hows) != 1:
                        ctx.count("undecided answers")
                    elif not closed:
                        ctx.require(hows == {"throw"}, "polygon:open", "a polygon is built from %s (%s)" % (shape(refs), site(m, fn)))
                    else:
                        ctx.require(hows == {"ret"}, "polygon:closed", "no polygon is built from %s (%s)" % (shape(refs), site(m, fn)))
        # shapes: all positions different, all equal, undefined
        for kind in ("different", "equal", "undefined"):
            p = [(r, {"different": 10 * (k + 1) if not (closed and k == len(pts) - 1) else 10, "equal": 5, "undefined": UNDEF}[kind], {"different": 20 * (k + 1) if not (closed and k == len(pts) - 1) else 20, "equal": 6, "undefined": UNDEF}[kind])
                 for k, (r, x, y) in enumerate(pts)]
            for new, fn in (("drv_line_list", "drv_shp_line"), ("drv_polygon_list", "drv_shp_polygon")):
                if "polygon" in fn and not closed:
                    continue
                for rev in (0, 1):
                    w = Shapes(m)
                    w.made = []
                    mem = L.nodes(w, LIST, 0, p)
                    st = [e for how, _, _, e in run_fn(m, w, new, [GEO, LIST, I(rev)], mem) if how == "ret"]
                    hows = set()
                    for s in st:
                        hows |= {how for how, _, _, _ in run_fn(m, w, fn, [GEO], s.mem)}
                    ctx.count("cases")
                    what = "a shape from %s with %s positions" % (shape(refs), kind)
                    for loc, how in w.bad.items():
                        ctx.violation("access:" + fn[4:], "building %s %s (at %s)" % (what, how, loc))
                    enough = len({x[1:] for x in p}) >= 2 and kind == "different"
                    for n, have in w.made:
                        ctx.count("shapes built")
                        if n is not None:
                            ctx.require(n >= 2, "shape:few", "%s is built with %d vertices (%s)" % (what, n, site(m, fn)))
                            for h in have:
                                if h is not None:
                                    ctx.require(h >= n, "access:shape arrays", "%s of %d vertices is given arrays of %d coordinates (%s)" % (what, n, h, site(m, fn)))
                        else:
                            ctx.count("undecided answers")
                    if not enough and not w.made:
                        ctx.ok("shape:refused")
    # members
    big = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 31 + 1]
    for n in lens:
        for k in list(range(0, n + 3)) + [n + 100] + big:
            w, r = case("drv_member", [REL, I(k if k < 2 ** 31 else k - 2 ** 32)], [lambda w: L.members(w, REL, 0, n)], "looking up member %d of a relation with %d members" % (k, n))
            for how, v, _, _ in r:
                if how != "ret" or v is None or v[0] not in ("i", "p", "s"):
                    ctx.count("undecided answers")
                    continue
                if k >= n:
                    ctx.require(v == I(0), "member:beyond", "looking up member %d of a relation with %d members finds one (%s)" % (k, n, site(m, "drv_member")))
                elif not w.bad:
                    want = ("p", data("m"), k * L.mem) if k else None
                    if v[0] == "p" or v[0] == "i":
                        ctx.require(v == ("p", data("m"), k * L.mem), "member:within", "looking up member %d of a relation with %d members finds %s (%s)" % (k, n, "none" if v == I(0) else "another one", site(m, "drv_member")))
    # tags
    keys = ["highway", "name", "na", "names", "ref"]
    for n in lens:
        tags = [(keys[k], "v%d" % k if k != 1 else "") for k in range(min(n, 5))]
        for key in keys + ["", "hig", "Name"]:
            for fn, base, at in (("drv_tag", LIST, 0), ("drv_object_tag", OBJ, L.ot)):
                kk = obj("K")
                w, r = case(fn, [base, ("s", ("chr", key, 0))], [lambda w: L.tags(w, base, at, tags)], "looking up the key '%s' in %d tags" % (key, n))
                want = dict(reversed(tags)).get(key)
                for how, v, _, e in r:
                    if how != "ret" or v is None:
                        ctx.count("undecided answers")
                        continue
                    t = w.text(None, e, v) if v[0] == "s" else None
                    if want is None:
                        if v == I(0) or v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "chr":
                            ctx.require(v == I(0), "tag:unknown", "looking up the key '%s' that is not there gives a value (%s)" % (key, site(m, fn)))
                        else:
                            ctx.count("undecided answers")
                    elif v[0] == "i" or t is not None:
                        ctx.require(t == want, "tag:known", "looking up the key '%s' gives %s (%s)" % (key, "nothing" if t is None else "'%s'" % t, site(m, fn)))
                    else:
                        ctx.count("undecided answers")
    ctx.at_least("cases", 200)
    ctx.at_least("shapes built", 4)
