"""The coordinate handler is interpreted abstractly with stores whose calls are events, for ids of both signs, zero and every
width: which store and key are used for storing, for single lookups and for the nodes of ways, where the position found goes,
and what else of the way changes. Nothing is executed."""
import itertools
from ir import translate, FOREACH, STDFN, AnalysisBroken
from absint import I
from scenario import obj, SHARED, play
from seqs import Seqs, ITERS, data
from rules.handlers import site
from rules.lists import Lists
from rules.c13 import cell_of

H, S1, S2, P, W = obj("H"), obj("S1"), obj("S2"), obj("P"), obj("W")
IDS = [0, 1, 7, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 2 ** 40 + 3, -1, -7, -2 ** 31, -2 ** 31 - 1, -2 ** 32, -2 ** 32 - 5, -2 ** 40 - 3, 255, 256, -256]


def found(store, key, axis):
    return ("s", ("f", ("found", store, key, axis), 32))


class Stores(Seqs):
    def call(self, ai, st, inst, name, args):
        s = ai.m.short(inst) or ""
        full = ai.m.callee(inst) or ""
        if full.startswith("Store<") or " Store<" in full.split("(")[0]:
            which = {S1: 1, S2: 2}.get(args[0])
            op = s.split("::")[-1]
            if which is None:
                return None
            if op in ("set", "operator[]"):
                key = self.num(ai, st, args[1])
                e = self.event(st, (op, which, key) + (tuple(args[2:3]) if op == "set" else ()))[0][2]
                if op == "set":
                    return [("ret", None, e)]
                return [("ret", ("s", ("pair", found(which, key, "x"), found(which, key, "y"))), e)]
            return self.event(st, (op, which))
        return Seqs.call(self, ai, st, inst, name, args)


def want(i):
    return (1, i) if i >= 0 else (2, -i)


def run(ctx):
    ctx.rules = ["a position is stored once, in the store and under the key of its id", "every lookup uses the same store and key", "each way node gets the position found for its own reference", "nothing else of a way changes"]
    ctx.assumptions = ["ids of both signs, zero and around powers of two stand for all ids", "ways of up to four nodes stand for all ways: the loop carries only a position in the list"]
    m = translate("coords.cpp", also=(FOREACH, STDFN) + SHARED + ITERS)
    L = Lists(m)
    io = cell_of(m, m.fn("drv_get_id"))
    st = play(m, Seqs(m), {}, [("drv_node_set", [obj("N"), P], {(P, L.x): I(111), (P, L.y): I(222)})])
    at = {v: a[1] for s in st for a, v in s.mem.items() if a[0] == obj("N")}
    if io is None or I(111) not in at:
        raise AnalysisBroken("the fields of nodes cannot be found")
    np = at[I(111)] - L.x
    new = [("drv_new", [H, S1, S2], {})]

    def bad(w):
        for loc, b in w.bad.items():
            ctx.require(False, "outside", "%s (%s)" % (b, loc))
    for i in IDS:
        # storing
        w = Stores(m)
        n, pt = obj("N"), obj("PN")
        px, py = ("s", ("f", "px", 32)), ("s", ("f", "py", 32))
        cells = {(pt, 0): n, (n, io): I(i), (n, np + L.x): px, (n, np + L.y): py}
        st = play(m, w, {}, new + [("drv_node", [H, pt], cells)])
        for s in st:
            ev = [e for e in s.auto]
            if any(len(e) > 2 and e[2] is None for e in ev):
                ctx.count("undecided ids")
                continue
            ctx.count("ids stored")
            ok = len(ev) == 1 and ev[0][0] == "set"
            ctx.require(ok, "store:once", "a node with id %d leads to %s instead of one position stored (%s)" % (i, ", ".join(e[0] for e in ev) or "nothing", site(m, "drv_node")))
            if ok:
                ctx.require(ev[0][1:3] == want(i), "store:key", "the position of node %d is stored under %d in the store for %s ids (%s)" % (i, ev[0][2], ["non-negative", "negative"][ev[0][1] - 1], site(m, "drv_node")))
                v = ev[0][3]
                if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "pair":
                    a, b = (v[1][1], v[1][2]) if L.x < L.y else (v[1][2], v[1][1])
                    ctx.require((a, b) == (px, py), "store:position", "another position than that of the node is stored for id %d (%s)" % (i, site(m, "drv_node")))
                else:
                    ctx.count("undecided positions")
        bad(w)
        # single lookups
        w = Stores(m)
        for s in play(m, w, {}, new + [("drv_get", [P, H, I(i)], {})]):
            ev = s.auto
            if any(len(e) > 2 and e[2] is None for e in ev):
                ctx.count("undecided ids")
                continue
            ctx.count("ids looked up")
            gets = [e for e in ev if e[0] == "operator[]"]
            ctx.require(all(e[0] == "operator[]" for e in ev), "get:only", "looking up the id %d calls %s (%s)" % (i, ", ".join(e[0] for e in ev), site(m, "drv_get")))
            got = tuple(s.mem.get((P, k)) for k in (L.x, L.y))
            w2 = want(i)
            if None in got or not all(g[0] == "s" and isinstance(g[1], tuple) and g[1][0] == "f" or g[0] == "i" for g in got):
                ctx.count("undecided positions")
                ctx.require(len(gets) != 1 or gets[0][1:3] == w2, "get:key", "the id %d is looked up under %d in the store for %s ids (%s)" % (i, gets[0][2] if gets else 0, ["non-negative", "negative"][gets[0][1] - 1] if gets else "", site(m, "drv_get")))
                continue
            ctx.require(got == (found(*w2, "x"), found(*w2, "y")), "get:key", "the position returned for id %d is that found under %s (%s)" % (
                i, ", ".join("%d in the store for %s ids" % (e[2], ["non-negative", "negative"][e[1] - 1]) for e in gets) or "no id", site(m, "drv_get")))
        bad(w)
    # ways
    lists = [[]] + [[i] for i in IDS] + [list(p) for p in itertools.product([0, 7, -7, 2 ** 32 + 5, -2 ** 40 - 3], repeat=2)] + [[7, -7, 0, -2 ** 32 - 5], [5, 6, 5], [-5, 5, -5, 5], [3, 3, 3]]
    if ctx.thorough:
        lists += [list(p) for p in itertools.product([0, 7, -7, 2 ** 33], repeat=3)]
    for l in lists:
        w = Stores(m)
        pw = obj("PW")
        cells = L.nodes(w, W, L.wl, [(i, I(100 + k), I(200 + k)) for k, i in enumerate(l)])
        cells[(pw, 0)] = W
        cells[(W, io)] = I(99)
        before = dict(cells)
        for s in play(m, w, {}, new + [("drv_way", [H, pw], cells)]):
            ctx.count("ways examined")
            loc = site(m, "drv_way")
            ctx.require(all(e[0] == "operator[]" for e in s.auto), "way:only", "a way of %s calls %s of a store (%s)" % (l, ", ".join(sorted({e[0] for e in s.auto})), loc))
            d = data("n")
            for k, i in enumerate(l):
                got = tuple(s.mem.get((d, k * L.wn + L.pos + a)) for a in (L.x, L.y))
                if None in got or any(g[0] == "s" and (not isinstance(g[1], tuple) or g[1][0] not in ("f",)) for g in got):
                    ctx.count("undecided positions")
                else:
                    w2 = want(i)
                    ctx.require(got == (found(*w2, "x"), found(*w2, "y")), "way:position", "in a way of %s node %d gets %s (%s)" % (
                        l, i, "no position" if got[0][0] == "i" else "the position found under %d in the store for %s ids" % (got[0][1][1][2], ["non-negative", "negative"][got[0][1][1][1] - 1]), loc))
                r = s.mem.get((d, k * L.wn + L.ref))
                ctx.require(r == I(i), "way:reference", "in a way of %s the reference of node %d changes (%s)" % (l, i, loc))
            n = w.info(s, (W, L.wl + L.ls))
            if n is not None:
                ctx.require(n[1] == len(l), "way:length", "a way of %s has %d nodes afterwards (%s)" % (l, n[1], loc))
            for a, v in s.mem.items():
                if a[0] == W and a not in before:
                    ctx.require(False, "way:other", "a way is changed other than the positions of its nodes (%s)" % loc)
            for a, v in before.items():
                if a[0] == W:
                    ctx.require(s.mem.get(a) == v, "way:other", "a way is changed other than the positions of its nodes (%s)" % loc)
        bad(w)
    ctx.at_least("ways examined", 20)
    ctx.at_least("ids stored", 10)
