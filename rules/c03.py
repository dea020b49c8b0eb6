"""The PBF reader is interpreted abstractly on given files: messages are trees that a model of protobuf gives out through its accessors,
and every callback is recorded together with what the delivered object says about itself. The files cover plain and dense nodes, ways
and relations with and without metadata, visibility, tags and members in all neighbourhoods (objects, groups and blocks before and
after), deltas up to the width of their field, granularities, offsets and string tables that change from block to block. What is
delivered is compared with what the format defines. The same is done with objects kept by the handler. Nothing is executed."""
import itertools
from rules.readx import load, bruijn
from rules.readp import Pbf, read
from rules.steps import Run
from rules.c02 import records, diff, KINDS
from ir import AnalysisBroken, Undecided
from absint import I
from scenario import obj
from orders import sgn

FIELDS = ("id", "version", "changeset", "timestamp", "uid", "user", "visible")
UNIT = 100                  # nanodegrees in a step of a stored coordinate


# files ----------------------------------------------------------------
def info(v=3, ch=5, ts=7, uid=9, user=1, vis=None):
    d = {"version": v, "changeset": ch, "timestamp": ts, "uid": uid, "user_sid": user}
    return d if vis is None else dict(d, visible=int(vis))


def plain(id, lat=1, lon=2, i=None, tags=()):
    return ent(dict(id=id, lat=lat, lon=lon), i, tags)


def way(id, refs=(), i=None, tags=()):
    return ent(dict(id=id, refs=deltas(refs)), i, tags)


def relation(id, mem=(), i=None, tags=()):
    return ent(dict(id=id, types=[t for t, r, s in mem], memids=deltas([r for t, r, s in mem]), roles_sid=[s for t, r, s in mem]), i, tags)


def ent(d, i, tags):
    if tags:
        d["keys"], d["vals"] = [k for k, v in tags], [v for k, v in tags]
    if i is not None:
        d["info"] = i
    return d


def deltas(l):
    return [x - y for x, y in zip(l, [0] + list(l))]


def dense(nodes, info=True, visible=None, tags=None):
    """nodes: [(id, lat, lon, info, tags)]"""
    d = {"id": deltas([n[0] for n in nodes]), "lat": deltas([n[1] for n in nodes]), "lon": deltas([n[2] for n in nodes])}
    if any(n[4] for n in nodes) if tags is None else tags:
        d["keys_vals"] = [x for n in nodes for x in [y for t in n[4] for y in t] + [0]]
    if info:
        f = lambda k: [n[3][k] for n in nodes]
        d["denseinfo"] = {"version": f("version"), "changeset": deltas(f("changeset")), "timestamp": deltas(f("timestamp")), "uid": deltas(f("uid")), "user_sid": deltas(f("user_sid"))}
        if visible is not None:
            d["denseinfo"]["visible"] = list(visible)
    return {"dense": d}


def block(groups, strings=("", "a", "b", "user", "r\xc3\xa4", "x" * 255), zip=True, **more):
    return {"type": "OSMData", "zip": zip, "block": dict({"stringtable": {"s": list(strings)}, "primitivegroup": list(groups)}, **more)}


HEAD = {"type": "OSMHeader", "block": {"required_features": ["OsmSchema-V0.6", "DenseNodes"], "writingprogram": "W"}}


class Want:
    def __init__(self, kind, what):
        self.kind, self.what, self.f, self.pos, self.tags, self.kids = kind, what, {}, None, [], []


def expected(blobs):
    out = []
    for b in blobs:
        if b["type"] != "OSMData":
            continue
        t = b["block"]
        s = t.get("stringtable", {}).get("s", [])
        gran, dg, lo, la = t.get("granularity", 100), t.get("date_granularity", 1000), t.get("lon_offset", 0), t.get("lat_offset", 0)

        def meta(w, i):
            w.f.update(version=i.get("version", -1) & 0xffffffff, changeset=sgn(i.get("changeset", 0) & 0xffffffff, 32), timestamp=("ms", i.get("timestamp", 0) * dg), uid=sgn(i.get("uid", 0) & 0xffffffff, 32), user=s[i.get("user_sid", 0)])
            if "visible" in i:
                w.f["visible"] = int(i["visible"])
        for g in t["primitivegroup"]:
            if "dense" in g:
                d = g["dense"]
                i = d.get("denseinfo")
                acc = {}

                def sum_(k, l):
                    acc[k] = acc.get(k, 0) + l
                    return acc[k]
                kv = list(d.get("keys_vals", []))
                for n in range(len(d["id"])):
                    w = Want("node", "dense node")
                    w.f["id"] = sum_("id", d["id"][n])
                    w.pos = (lo + gran * sum_("lon", d["lon"][n]), la + gran * sum_("lat", d["lat"][n]))
                    if i is not None:
                        m = {k: sum_("i" + k, i[k][n]) for k in ("changeset", "timestamp", "uid", "user_sid")}
                        m["version"] = i["version"][n]
                        if i.get("visible"):
                            m["visible"] = i["visible"][n]
                        meta(w, m)
                    while kv:
                        k = kv.pop(0)
                        if k == 0:
                            break
                        w.tags.append((s[k], s[kv.pop(0)]))
                    out.append(w)
            for f, kind, what in (("nodes", "node", "plain node"), ("ways", "way", "way"), ("relations", "relation", "relation")):
                for e in g.get(f, []):
                    w = Want(kind, what)
                    w.f["id"] = e["id"]
                    if "info" in e:
                        meta(w, e["info"])
                    w.tags = [(s[k], s[v]) for k, v in zip(e.get("keys", []), e.get("vals", []))]
                    if kind == "node":
                        w.pos = (lo + gran * e["lon"], la + gran * e["lat"])
                    w.kids = list(itertools.accumulate(e.get("refs", [])))
                    if kind == "relation":
                        w.kids = [[ord("nwr"[t]), r, s[q]] for t, r, q in zip(e["types"], itertools.accumulate(e["memids"]), e["roles_sid"])]
                    out.append(w)
    return out


def words(blobs):
    r = []
    for b in blobs:
        if b["type"] == "OSMData":
            t = b["block"]
            r.append("[" + "; ".join(["%s %s" % (k, t[k]) for k in ("granularity", "date_granularity", "lon_offset", "lat_offset") if k in t] + [
                " ".join("%s %s" % (k, str(v).replace("'", "")) for k, v in g.items()) for g in t["primitivegroup"]]) + "]")
    x = " ".join(r)
    return x if len(x) < 520 else x[:500] + " ..."


class Check:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        self.fresh = {}
        for k in KINDS:
            r = Run(m, Pbf(m, []))
            o = obj("fresh")
            if r.step("drv_mk_" + k, o, *([I(0)] if k == "way" else [])) == "ret" and r.step("drv_again_" + k, o) == "ret":
                self.fresh[k] = records((("event", 0),) + r.auto)[0][0].f
            else:
                raise AnalysisBroken("a new %s cannot be looked at" % k)

    def play(self, *blobs, unique=(True,), cuts=(), what=""):
        ctx = self.ctx
        blobs = [HEAD] + list(blobs)
        exp = expected(blobs)
        for u in unique:
            txt = words(blobs)
            try:
                r = read(self.m, Pbf(self.m, blobs, unique=u, cuts=cuts))
            except (Undecided, AnalysisBroken):
                r = None
            if r is None:
                ctx.count("undecided files")
                continue
            how, kind, auto = r
            if how == "bad":
                ctx.require(False, "access", "%s while reading %s" % (", ".join("%s at %s" % (v, k) for k, v in kind.items()), txt))
                continue
            if any(len(e) == 2 and e[1] is None for e in auto):
                ctx.count("undecided files")
                continue
            ctx.count("files")
            if not ctx.require(how == "ret", "throw:" + what, "reading the correct file %s fails" % txt):
                continue
            objs, again = records(auto)
            if not ctx.require([o.kind for o in objs] == [w.kind for w in exp], "delivered:" + what, "the file %s delivers %s instead of %s" % (txt, ", ".join(o.kind for o in objs) or "nothing", ", ".join(w.kind for w in exp) or "nothing")):
                continue
            for o, w in zip(objs, exp):
                self.compare(o, w, txt)
            if not u:
                ctx.require(len(again) == len(objs), "kept", "objects kept by the handler cannot be looked at after reading %s" % txt) if again or not objs else None
                for o, p in zip(objs, again):
                    ctx.count("objects looked at again")
                    ctx.require((o.f, o.tags, o.kids) == (p.f, p.tags, p.kids), "modify:" + o.kind, "in %s a %s that has been delivered, and is kept by the handler, changes: %s" % (txt, o.kind, diff(o, p)))

    def compare(self, o, w, txt):
        ctx = self.ctx
        ctx.count("objects compared")
        for x in FIELDS:
            g = o.f.get(x)
            if x == "version":
                g = g & 0xffffffff
            if x not in w.f:
                v = self.fresh[w.kind].get(x)
                ctx.require(g == v, "foreign:%s:%s" % (w.what, x), "in %s the %s of a %s without one is %r" % (txt, x, w.what, g))
                continue
            v = w.f[x]
            if x == "timestamp":
                ok = abs(g * 1000 - v[1]) < 1000 and (v[1] % 1000 or g * 1000 == v[1])
                v = "%s s" % (v[1] / 1000)
            else:
                ok = g == v
            ctx.require(ok, "field:%s:%s" % (w.what, x), "in %s the %s of a %s is %r, not %s" % (txt, x, w.what, g, v))
        if w.pos is not None and (max(w.pos) > 1800000000 * UNIT or min(w.pos) < -1800000000 * UNIT):
            return
        if w.pos is not None:
            ok = o.f.get("defined") == 1 and all(abs(o.f[k] * 1e9 - p) < (UNIT if p % UNIT else 1) for k, p in zip(("lon", "lat"), w.pos))
            ctx.require(ok, "position:" + w.what, "in %s the position of a %s is %s, not %.9f, %.9f" % (txt, w.what, "%.9f, %.9f" % (o.f["lon"], o.f["lat"]) if o.f.get("defined") == 1 else "not set", w.pos[0] / 1e9, w.pos[1] / 1e9))
        ctx.require(o.tags == w.tags, "tags:" + w.what, "in %s the tags of a %s are %s, not %s" % (txt, w.what, o.tags, w.tags))
        if w.kind != "node":
            ctx.require(o.kids == w.kids, "children:" + w.what, "in %s the %s are %s, not %s" % (txt, "node references of a way" if w.kind == "way" else "members of a relation", o.kids, w.kids))

    # ---- which files ------------------------------------------------------
    def run(self):
        ctx = self.ctx
        T = [(), [(1, 2)], [(2, 1), (1, 1)], [(3, 4), (1, 0), (5, 5)]]
        M = [[], [(0, 5, 1)], [(1, 5, 0), (2, -7, 4), (0, 2 ** 33, 2)], [(2, 1, 2), (2, 1, 2), (0, 0, 0), (1, 1, 1)]]
        R = [[], [7], [7, -3, 2 ** 33, 2 ** 33, 0, 1]]
        infos = [None, info(), info(1, 900, -5, 3, 2, False), info(4, 7, 8, 10, 3, True), info(2, 2, 2, 2, 0)]
        # neighbours: every kind of metadata after every other
        for a, b in itertools.product(infos, repeat=2):
            n = infos.index(a) + infos.index(b)
            t, u = T[n % 4], T[(n + 1) % 4]
            uq = (n % 2 == 0,)
            self.play(block([{"nodes": [plain(1, 5, -6, a, t), plain(-2, -7, 8, b, u)]}]), unique=uq)
            self.play(block([{"ways": [way(1, R[n % 3], a, t), way(-2, R[(n + 1) % 3], b, u)]}]), unique=uq)
            self.play(block([{"relations": [relation(1, M[n % 4], a, t), relation(-2, M[(n + 1) % 4], b, u)]}]), unique=uq)
        # every number of members, references and tags after every other, and every combination of them with the metadata
        for size, order in ((5, 2), (3, 3)):
            for q in (0, 1):
                l = bruijn(size, order)
                lt, li = [(x * 3 + n // size) % 4 for n, x in enumerate(l)], [(x + n * q) % len(infos) for n, x in enumerate(l)]
                self.play(block([{"relations": [relation(n, [((n + k) % 3, 9 * n - k * 4 + 2, (k + n) % 5) for k in range(x)], infos[li[n]], T[lt[n]]) for n, x in enumerate(l)]}]), unique=(q,))
                self.play(block([{"ways": [way(n, [9 * n - k * 4 + 2 for k in range(x)], infos[li[n]], T[lt[n]]) for n, x in enumerate(l)]}]), unique=(q,))
                self.play(block([{"relations": [relation(n, M[(n + x) % 4], infos[li[n]], [(y % 4 + 1, (n + y) % 5) for y in range(x)]) for n, x in enumerate(l)]}]), unique=(1 - q,))
                self.play(block([{"ways": [way(n, R[(n + x) % 3], infos[li[n]], [(y % 4 + 1, (n + y) % 5) for y in range(x)]) for n, x in enumerate(l)]}]), unique=(1 - q,))
                self.play(block([{"nodes": [plain(n, 9 * n, -n, infos[li[n]], [(y % 4 + 1, (n + y) % 5) for y in range(x)]) for n, x in enumerate(l)]}]), unique=(1 - q,))
                self.play(block([dense([(n * n - 7 * n, 9 * n, -n * n, infos[li[n] or 1], [(y % 4 + 1, (n + y) % 5) for y in range(x)]) for n, x in enumerate(l)], visible=[n % 3 > 0 for n in range(len(l))] if q else None)]), unique=(1 - q,))
        l = [(a, t, x) for a in infos for t in T for x in range(4)]
        l = [l[k * 37 % len(l)] for k in range(len(l))]
        self.play(block([{"relations": [relation(n, M[x], a, t) for n, (a, t, x) in enumerate(l)]}]), unique=(False,))
        self.play(block([{"ways": [way(n, R[x % 3], a, t) for n, (a, t, x) in enumerate(l)]}]), unique=(True,))
        # dense nodes
        D = [(5, 10, 20, info(1, 4, 6, 9, 3), ()), (-3, 7, -2, info(2, 4, 5, 7, 1), [(1, 2)]), (2 ** 34, 0, 0, info(3, 9, 100, 8, 4), [(2, 1), (4, 3)]), (1, -9, 3, info(1, 1, 1, 1, 2), ())]
        for inf in (True, False):
            for vis in (None, (1, 0, 1, 0), (0, 0, 1, 1)) if inf else (None,):
                for tags in (None, True):
                    for order in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 3, 2)) if ctx.thorough else ((0, 1, 2, 3), (1, 3, 0, 2)):
                        self.play(block([dense([D[k] for k in order], inf, vis, tags)]), unique=(tags is None, ) if tags is None or inf else (False,))
        for tags in itertools.product(T[:3], repeat=3):
            self.play(block([dense([(n, n, n, info(), t) for n, t in enumerate(tags)])]))
        self.play(block([dense([(1, 1, 1, info(), ())], tags=True)]))
        self.play(block([dense([(1, 1, 1, info(), ()), (2, 1, 1, info(), ())], tags=False)]))
        # tags whose values are the empty string at index zero
        self.play(block([dense([(1, 1, 1, info(), [(1, 0), (2, 0)]), (2, 1, 1, info(), [(4, 0)]), (3, 1, 1, info(), ())])]))
        self.play(block([{"dense": {"id": [1, 1], "lat": [1, 1], "lon": [1, 1], "keys_vals": [1, 2]}}]))       # the end of the tags of the last node is missing
        # several groups and blocks: nothing is carried over
        G = {"plain": {"nodes": [plain(100, 50, 60, info(), T[1])]}, "dense": dense(D[:2]), "dense without metadata": dense(D[1:3], info=False), "way": {"ways": [way(100, [50, 60], info(), T[2])]}, "relation": {"relations": [relation(100, M[2], info(), T[1])]},
             "bare way": {"ways": [way(3)]}, "bare relation": {"relations": [relation(3)]}, "bare node": {"nodes": [plain(3, 0, 0)]}}
        n = 0
        for a, b in itertools.product(G, repeat=2):
            n += 1
            self.play(block([G[a], G[b]]), unique=(n % 2 == 0,), what="groups") if ctx.thorough or n % 2 else None
            self.play(block([G[a]]), block([G[b]], strings=("", "A", "B", "USER", "R", "S"), zip=False, granularity=1000, date_granularity=1, lat_offset=-500, lon_offset=7000), unique=(n % 2 == 1,), what="blocks") if ctx.thorough or not n % 2 else None
        # order of blobs of other types, headers that are repeated, empty blocks
        self.play({"type": "Other", "block": {}}, block([G["plain"]]), {"type": "Other", "block": {}}, block([]), HEAD, block([G["way"], G["relation"]], zip=False), what="blobs")
        self.play(block([G["dense"]]), block([G["dense"]]), block([G["dense"], G["dense"]]), what="blobs")
        self.play(block([G["dense"]]), block([G["way"]]), cuts=("size", "body"), what="blobs")
        # granularities, offsets and dates
        for gran, dg, la, lo in ((100, 1000, 0, 0), (1, 1, 0, 0), (1000, 1000, 100, -100), (10000, 60000, -5000000000, 7000000000), (50, 100, 25, 75), (1000000, 3600000, 10 ** 9, -10 ** 9), (100, 1000, 1, -1), (250, 500, 0, 12300), (7, 33, 1001, -999)):
            for v in ((0, 0), (1, -1), (12345, -12345), (-3, 3)) if ctx.thorough else ((1, -1), (-12345, 12345)):
                x = dict(granularity=gran, date_granularity=dg, lat_offset=la, lon_offset=lo)
                i = [info(1, 1, ts, 1, 1) for ts in (0, 1, 999, 1000, 1500, 12345678)]
                self.play(block([{"nodes": [plain(k, v[0] * (k + 1), v[1] * (k + 1), j) for k, j in enumerate(i)]}, dense([(k, v[0] * (k + 1), v[1] * (k + 1), j, ()) for k, j in enumerate(i)]),
                                 {"ways": [way(k, (), j) for k, j in enumerate(i)]}, {"relations": [relation(k, (), j) for k, j in enumerate(i)]}], **x), what="granularity")
        # limits of widths
        big = [0, 1, -1, 127, 128, -129, 32767, 32768, -32769, 65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 40, -2 ** 40, 2 ** 53 + 1, 2 ** 62]
        self.play(block([dense([(x, 0, 0, info(), ()) for x in big])]))
        self.play(block([{"nodes": [plain(x) for x in big]}, {"ways": [way(x) for x in big]}, {"relations": [relation(x) for x in big]}]))
        self.play(block([{"ways": [way(1, big), way(2, big[::-1])]}, {"relations": [relation(1, [(1, x, 0) for x in big])]}]))
        c = [0, 1, -1, 900000000, -900000000, 899999999, 1800000000, -1800000000, 1799999999, 12345]
        self.play(block([dense([(n, x % 900000001 if x > 0 else x // 2, x, info(), ()) for n, x in enumerate(c)])]))
        self.play(block([{"nodes": [plain(n, x // 2, x) for n, x in enumerate(c)]}]))
        c9 = [x * 100 for x in c]
        self.play(block([dense([(n, x // 200 * 100, x, info(), ()) for n, x in enumerate(c9)])], granularity=1))
        self.play(block([{"nodes": [plain(n, x // 200 * 100, x) for n, x in enumerate(c9)]}], granularity=1))
        ts = [0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 4102444800, 1]
        m32 = [0, 1, 127, 128, 255, 256, 32768, 65536, 2 ** 31 - 1, 3]
        for dg, k in ((1000, 1), (1, 1000), (100, 10)):
            l = [info(1, 1, t * k, 1, 1) for t in ts]
            self.play(block([dense([(n, 0, 0, j, ()) for n, j in enumerate(l)]), {"nodes": [plain(n, 0, 0, j) for n, j in enumerate(l)]}, {"ways": [way(n, (), j) for n, j in enumerate(l)]}, {"relations": [relation(n, (), j) for n, j in enumerate(l)]}], date_granularity=dg), what="dates")
        l = [info(v, v, 1, v, 1) for v in m32]
        self.play(block([dense([(n, 0, 0, j, ()) for n, j in enumerate(l)]), {"nodes": [plain(n, 0, 0, j) for n, j in enumerate(l)]}, {"ways": [way(n, (), j) for n, j in enumerate(l)]}, {"relations": [relation(n, (), j) for n, j in enumerate(l)]}]))
        # long string tables
        s = [""] + ["s%d" % k for k in range(1, 700 if ctx.thorough else 300)]
        k = [1, 127, 128, 255, 256, len(s) - 1]
        self.play(block([dense([(n, 0, 0, info(1, 1, 1, 1, x), [(x, y)]) for n, (x, y) in enumerate(zip(k, k[::-1]))]), {"nodes": [plain(n, 0, 0, info(1, 1, 1, 1, x), [(x, y)]) for n, (x, y) in enumerate(zip(k, k[::-1]))]},
                         {"ways": [way(1, (), info(1, 1, 1, 1, k[4]), list(zip(k, k[::-1])))]}, {"relations": [relation(1, [(t % 3, t, x) for t, x in enumerate(k)], info(1, 1, 1, 1, k[3]), list(zip(k, k[::-1])))]}], strings=s), what="strings")
        # strings that look alike
        self.play(block([{"ways": [way(1, (), info(), [(1, 2), (2, 1), (3, 3), (4, 5)])]}], strings=("", "a", "a ", "a", "A", "\xc3\xa4\n\"")))
        # kept objects over kinds
        for p in itertools.permutations(("plain", "dense", "way", "relation"), 4 if ctx.thorough else 2):
            self.play(block([G[x] for x in p] + [G[p[0]]]), unique=(False,))
        # long groups
        self.play(block([dense([(3 * k, k, -k, info(k, k, k, k, k % 5), [(k % 4 + 1, k % 3 + 1)] * (k % 3)) for k in range(40)])]), block([{"ways": [way(1, [k * k % 17 for k in range(60)])]}]))
        n = 600 if ctx.thorough else 260
        for g in ({"ways": [way(1, [k * k % 301 for k in range(n)])]}, {"ways": [way(1, [], None, [(k % 5 + 1, k % 3 + 1) for k in range(n)])]}, {"relations": [relation(1, [(k % 3, k, k % 5) for k in range(n)])]},
                  dense([(3 * k, k, -k, info(k, k, k, k, k % 5), ()) for k in range(n)]), {"nodes": [plain(3 * k, k, -k) for k in range(n)]}, {"ways": [way(k, [k]) for k in range(n)]}):
            self.play(block([g]))


def run(ctx):
    ctx.rules = ["an object of a group is not delivered exactly once and in order", "a field of a delivered object differs from what the format defines for its own entry", "a field that is absent has the value of another object", "a delivered object changes"]
    ctx.assumptions = ["protobuf's accessors give what the message holds", "files are a finite family; see the docstring of the rule", "coordinates and timestamps that fall between two representable values may be either of them",
                       "whether an object is shared with the handler is a parameter of the file", "files whose reading the interpreter cannot follow are not judged (counted as undecided)"]
    m = load(ndebug=not ctx.thorough)
    c = Check(ctx, m)
    c.run()
    ctx.at_least("files", 60)
