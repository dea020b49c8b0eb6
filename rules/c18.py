"""The end-time handler is interpreted abstractly on sequences of versions covering all order types of consecutive ids,
timestamps and sections: every object must be delivered once, in order, before its section ends, with the timestamp of the
following object as end time if and only if that has the same id. The range filter is interpreted on all order types of end
time, timestamp and range limits, and the resulting table compared with the specification."""
from rules.handlers import *

IDS = [-(2 ** 40) - 7, -7, 0, 7, 7 + 2 ** 32]
SECTION = {"node": "nodes", "way": "ways", "relation": "relations"}


def endtime(ctx, kit, kinds, seqs, what):
    """seqs: per section a list of dicts of field values"""
    calls, cells, want = [("drv_end_new", [W, P1], {}), ("drv_end_init", [W, META], {})], {}, [("1", "init", "meta")]
    for x, k in enumerate(kinds):
        calls.append(("drv_end_before_" + SECTION[k], [W], {}))
        want.append(("1", "before_" + SECTION[k]))
        s = seqs[x]
        for n, o in enumerate(s):
            name = "%s%d%s" % (k, n + 1, "abcd"[x])
            calls.append(("drv_end_" + k, [W, kit.ptr(name)], kit.object(name, k, **o)))
            e = s[n + 1]["timestamp"] if n + 1 < len(s) and s[n + 1]["id"] == o["id"] else o.get("endtime", 0)
            want.append(("1", k, (name, ("endtime", e))))
        calls.append(("drv_end_after_" + SECTION[k], [W], {}))
        want.append(("1", "after_" + SECTION[k]))
    calls.append(("drv_end_final", [W], {}))
    want.append(("1", "final"))
    w = World(kit.m)
    w.watch = tuple({("endtime", kit.off[k, "endtime"]) for k in kinds})
    if len(w.watch) != 1:
        raise AnalysisBroken("objects keep their end time in different places")
    st = play(kit.m, w, {}, calls)
    ctx.count("histories examined")
    ctx.count("final states", len(st))
    for s in st:
        got = s.auto
        if any(x == "?" for e in got for a in e[2:] if isinstance(a, tuple) for x in (y[1] for y in a[1:])) or any(a == "?" for e in got for a in e[2:]):
            ctx.count("undecided histories")
            continue
        d = next((n for n in range(max(len(got), len(want))) if n >= len(got) or n >= len(want) or got[n] != want[n]), None)
        ids = ", ".join("%s id=%d timestamp=%d" % (k, o["id"], o["timestamp"]) for k, s in zip(kinds, seqs) for o in s)
        ctx.require(d is None, "endtime:%s" % what, "for the history (%s) the end time handler calls %s where %s is due" % (
            ids, d is not None and (text(got[d]) if d < len(got) else "nothing more"), d is not None and (text(want[d]) if d < len(want) else "nothing more")))
    return st


def ranges(ctx, kit, k):
    key = {"node": "node", "way": "way", "relation": "relation"}[k]
    base = 2 ** 33
    for frm, to in ((base, base + 100), (base, base), (10, base), (0, 5)):
        ends = sorted({0, frm - 1, frm, frm + 1, to, to + 1, 5, base - 2 ** 32} | ({1} if frm else {1}))
        tss = sorted({0, 1, frm - 1, frm, to - 1, to, to + 1, to + 2 ** 32, frm + 1})
        for e in ends:
            for t in tss:
                if e < 0 or t < 0:
                    continue
                w = World(kit.m)
                st = play(kit.m, w, {}, [("drv_range_new", [W, P1, I(frm), I(to)], {}), ("drv_range_" + k, [W, kit.ptr("o")], kit.object("o", k, id=1, version=1, timestamp=t, endtime=e))])
                want = (e == 0 or e >= frm) and t <= to
                ctx.count("order types examined")
                for s in st:
                    got = len(s.auto)
                    ctx.require(got == int(want), "range:" + key, "the range filter from %d to %d %s a %s with timestamp %d and end time %d (%s)" % (
                        frm, to, "drops" if want else "passes" if got == 1 else "repeats", k, t, e, site(kit.m, "drv_range_" + k)))
                if not st:
                    ctx.count("undecided order types")


def run(ctx):
    ctx.rules = ["an object is not delivered once, in order and before the end of its section", "the end time is not the timestamp of the following object exactly if that has the same id", "the range filter decides against the specification"]
    ctx.assumptions = ["a finite set of representatives covers all order types of ids and times", "the handler's state is the pending object per kind, so sequences of up to three objects (four in the thorough tier) cover its behaviour"]
    kit = Kit(load())
    n = 4 if ctx.thorough else 3
    ts = [100, 40, 2 ** 33 + 5, 0]
    for k in KINDS:
        endtime(ctx, kit, [k], [[]], k)
        for ids in itertools.product(IDS, repeat=2):
            endtime(ctx, kit, [k], [[dict(id=i, version=v, timestamp=t) for i, v, t in zip(ids, (1, 2), (5, 9))]], k)
            endtime(ctx, kit, [k], [[dict(id=i, version=v, timestamp=t, endtime=77) for i, v, t in zip(ids, (3, 3), (9, 9))]], k)
            endtime(ctx, kit, [k], [[dict(id=i, version=v, timestamp=t) for i, v, t in zip(ids, (4, 2), (9, 0))]], k)
        for ids in itertools.product(IDS[1:4], repeat=n):
            endtime(ctx, kit, [k], [[dict(id=i, version=v, timestamp=t) for i, v, t in zip(ids, range(1, n + 1), ts)]], k)
    for ids in itertools.product((7, 8), repeat=3):
        endtime(ctx, kit, list(KINDS), [[dict(id=7, version=1, timestamp=10 * x + 1), dict(id=i, version=2, timestamp=10 * x + 2)] for x, i in enumerate(ids, 1)], "sections")
    for some in (["node", "relation"], ["way", "relation"], ["way", "node"], ["way", "node", "way"], ["node", "relation", "node"], ["relation", "way", "relation"]):
        for ids in ((7, 7, 7), (7, 7, 8)):
            endtime(ctx, kit, some, [[dict(id=i, version=x, timestamp=x)] for x, (k, i) in enumerate(zip(some, ids), 1)], "sections")
    for k in KINDS:
        ranges(ctx, kit, k)
    ctx.at_least("histories examined", 100)
    ctx.at_least("order types examined", 300)
