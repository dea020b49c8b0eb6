"""The PBF writer is interpreted abstractly over sequences of objects; protobuf messages are trees, so that the blocks it writes are
decoded with the format's equations and compared with the objects given. Block boundaries are reached by repeating the effect
of one more object on the writer's counters. Nothing is executed."""
import itertools
from absint import I
from scenario import obj
from rules.handlers import site
from rules.pbfw import Pbf, PbfWriter, load, blobs, Bad, X, META, MAXBLOCK
from rules.c04 import SPECIAL
from orders import sgn

KIND = {"n": 0, "w": 1, "r": 2}
FULL = 8000


def items(msg, f):
    v = msg.get(f)
    return v[1:] if isinstance(v, tuple) and v and v[0] == "rep" else ()


def sub(v):
    return dict(v[1]) if isinstance(v, tuple) and v and v[0] == "msg" else {}


def decode(tree, base=0):
    """objects of a primitive block: [dict]; base: number of strings before those in the table"""
    b = dict(tree)
    st = items(sub(b.get("stringtable", ())), "s")
    gran, date = b.get("granularity", 100), b.get("date_granularity", 1000)
    used, out = set(), []

    def text(i):
        if base and i:
            if i <= base:
                raise Bad("string %d is referred to, which no object of the block has" % i)
            i -= base
        if not 0 <= i < len(st):
            raise Bad("string %d of a table of %d strings is referred to" % (i + base, base + len(st)))
        used.add(st[i])
        return st[i]

    def run(l):
        return list(itertools.accumulate(l))

    def info(m, o):
        i = sub(m.get("info", ()))
        if i:
            o.update(version=i.get("version", -1), timestamp=i.get("timestamp", 0) * date, changeset=i.get("changeset", 0), uid=i.get("uid", 0), user=text(i.get("user_sid", 0)), visible=bool(i.get("visible", 1)))
        if len(items(m, "keys")) != len(items(m, "vals")):
            raise Bad("%d keys and %d values are written for an object" % (len(items(m, "keys")), len(items(m, "vals"))))
        o["tags"] = [(text(k), text(v)) for k, v in zip(items(m, "keys"), items(m, "vals"))]
        out.append(o)
    for g in items(b, "primitivegroup"):
        g = sub(g)
        if sum(1 for k in ("nodes", "dense", "ways", "relations") if k in g) > 1:
            raise Bad("objects of different kinds are in one group")
        for n in items(g, "nodes"):
            n = sub(n)
            info(n, dict(kind="node", id=n.get("id"), pos=(n.get("lon", 0) * gran, n.get("lat", 0) * gran)))
        d = sub(g.get("dense", ()))
        if d:
            ids, lon, lat = (run(items(d, f)) for f in ("id", "lon", "lat"))
            i = sub(d.get("denseinfo", ()))
            if not len(ids) == len(lon) == len(lat):
                raise Bad("%d ids, %d longitudes and %d latitudes of nodes are written" % (len(ids), len(lon), len(lat)))
            kv, tags = list(items(d, "keys_vals")), [[]]
            while kv:
                k = kv.pop(0)
                if k == 0:
                    tags.append([])
                    continue
                if not kv:
                    raise Bad("a key without value is written")
                tags[-1].append((text(k), text(kv.pop(0))))
            if items(d, "keys_vals") and (len(tags) != len(ids) + 1 or tags[-1]):
                raise Bad("the tags of %d nodes are written for %d nodes" % (len(tags) - 1, len(ids)))
            cols = {f: items(i, f) for f in ("version", "timestamp", "changeset", "uid", "user_sid", "visible")}
            for f in ("timestamp", "changeset", "uid", "user_sid"):
                cols[f] = run(cols[f])
            for f, c in cols.items():
                if c and len(c) != len(ids) or i and f != "visible" and len(c) != len(ids):
                    raise Bad("%s is written %d times for %d nodes" % (f, len(c), len(ids)))
            for k, x in enumerate(ids):
                o = dict(kind="node", id=x, pos=(lon[k] * gran, lat[k] * gran), tags=tags[k] if items(d, "keys_vals") else [])
                if i:
                    o.update(version=cols["version"][k], timestamp=cols["timestamp"][k] * date, changeset=cols["changeset"][k], uid=sgn(cols["uid"][k], 32), user=text(cols["user_sid"][k]),
                             visible=bool(cols["visible"][k]) if cols["visible"] else True)
                out.append(o)
        for w in items(g, "ways"):
            w = sub(w)
            info(w, dict(kind="way", id=w.get("id"), nodes=run(items(w, "refs"))))
        for r in items(g, "relations"):
            r = sub(r)
            l = items(r, "types"), items(r, "memids"), items(r, "roles_sid")
            if len({len(x) for x in l}) != 1:
                raise Bad("%d types, %d ids and %d roles of members are written" % tuple(len(x) for x in l))
            info(r, dict(kind="relation", id=r.get("id"), members=[(t, m, text(s)) for t, m, s in zip(l[0], run(l[1]), l[2])]))
    rest = [s for s in st if s and s not in used]
    if rest:
        raise Bad("the string table holds '%s', which no object of the block has" % rest[0][:40])
    return out


def wanted(o, meta):
    r = dict(kind=o["kind"], id=o["id"], tags=list(o.get("tags", ())))
    if o["kind"] == "node":
        p = o.get("pos", (2147483647, 2147483647))
        r["pos"] = (p[0] * 100, p[1] * 100)
    if o["kind"] == "way":
        r["nodes"] = list(o.get("nodes", ()))
    if o["kind"] == "relation":
        r["members"] = [(KIND[t], m, s) for t, m, s in o.get("members", ())]
    if meta:
        r.update(version=sgn(o["version"], 32), timestamp=o["timestamp"] * 1000, changeset=o["changeset"], uid=o["uid"], user=o["user"], visible=o["visible"])
    return r


class Play:
    """one file; objects are added step by step"""
    def __init__(self, ctx, m, ftype="osm", dense=True, zip_=False, meta=True, bounds=(), msgsize=None, w=None, want=None):
        self.ctx, self.m, self.ftype, self.dense, self.zip, self.meta = ctx, m, ftype, dense, zip_, meta
        self.objects, self.dead, self.want = [], False, want or wanted
        self.r = PbfWriter(m, w or Pbf(m))
        if msgsize is not None:
            self.r.w.msgsize = msgsize
        if not self.r.open("name.%s.pbf" % ftype):
            return self.miss()
        ok = [self.r.step("drv_meta", META)] + [self.r.step("drv_extend", META, I(x), I(y)) for x, y in bounds] + \
             [self.r.step(f, X, I(int(v))) for f, v in (("drv_dense", dense), ("drv_compression", zip_), ("drv_metadata", meta))]
        if any(x != "ret" for x in ok):
            return self.miss()
        self.do("drv_init", META)

    def miss(self):
        self.dead = True
        self.ctx.count("undecided histories")

    def do(self, fn, *args):
        if self.dead:
            return
        how = self.r.step(fn, X, *args)
        if how == "bad":
            l = list(self.r.broke.items())[0]
            self.ctx.violation("use", "%s: %s (%s)" % (self.what(), l[1], l[0]))
            self.dead = True
        elif isinstance(how, tuple):
            self.ctx.violation("throws", "%s: %s throws without a failure (%s)" % (self.what(), fn[4:], site(self.m, fn)))
            self.dead = True
        elif how is None:
            self.miss()

    def what(self):
        k = "".join(o["kind"][0] for o in self.objects)
        return "a file of type %s%s%s%s with %d objects (%s)" % (self.ftype, "" if self.dense else ", not dense", ", compressed" if self.zip else "", "" if self.meta else ", without metadata", len(k), k[:12])

    def add(self, o):
        if self.dead:
            return
        if not self.r.make("O%d" % len(self.objects), **{a: b for a, b in o.items() if a != "what"}):
            return self.miss()
        self.objects.append(o)
        self.do("drv_" + o["kind"], obj("ptr.O%d" % (len(self.objects) - 1)))

    def copy(self):
        p = object.__new__(Play)
        p.__dict__.update(self.__dict__)
        p.objects, p.r = list(self.objects), self.r.copy()
        return p

    def cells(self):
        return {k[1]: v[1] for k, v in self.r.mem.items() if k[0] == X and isinstance(k[1], int) and v[0] == "i"}

    def done(self, per_block=None, sizes=None):
        """finish, decode, compare"""
        self.do("drv_final")
        self.do("drv_del")
        if self.dead:
            return None
        ctx, at = self.ctx, site(self.m, "drv_final")
        try:
            l = blobs(self.r.w, self.r.auto)
        except Bad as e:
            ctx.require(False, "file", "%s: %s (%s)" % (self.what(), e, at))
            return None
        ctx.count("files decoded")
        ctx.count("blocks decoded", len(l))
        if not ctx.require(l and l[0][0] == "OSMHeader" and l[0][1] == "HeaderBlock", "header", "%s: the file does not start with a header block (%s)" % (self.what(), site(self.m, "drv_init"))):
            return None
        ctx.require(all(k == "OSMData" and t == "PrimitiveBlock" for k, t, _, _ in l[1:]), "kinds", "%s: the blocks are %s (%s)" % (self.what(), [(k, t) for k, t, _, _ in l[:4]], at))
        head = dict(l[0][2])
        need = {"OsmSchema-V0.6"}
        got, where = [], []
        for n, (k, t, tree, z) in enumerate(l[1:]):
            if t != "PrimitiveBlock":
                continue
            try:
                os = decode(tree, self.r.w.base)
            except Bad as e:
                ctx.require(False, "block", "%s: in block %d %s (%s)" % (self.what(), n + 1, e, at))
                return None
            got += os
            where.append(os)
            for g in items(dict(tree), "primitivegroup"):
                if "dense" in sub(g):
                    need.add("DenseNodes")
                for f in ("nodes", "ways", "relations"):
                    if any("visible" in sub(sub(x).get("info", ())) for x in items(sub(g), f)):
                        need.add("HistoricalInformation")
                if items(sub(sub(sub(g).get("dense", ())).get("denseinfo", ())), "visible"):
                    need.add("HistoricalInformation")
        if self.ftype in ("osh", "osc"):
            need.add("HistoricalInformation")
        miss = need - set(items(head, "required_features"))
        ctx.require(not miss, "features", "%s: the header does not name the feature %s (%s)" % (self.what(), sorted(miss), site(self.m, "drv_init")))
        for kind in ("node", "way", "relation"):
            a, b = [x for x in got if x["kind"] == kind], [self.want(x, self.meta) for x in self.objects if x["kind"] == kind]
            fn = site(self.m, "drv_" + kind)
            if not ctx.require(len(a) == len(b), "count:" + kind, "%s: %d %ss are written, expected %d (%s)" % (self.what(), len(a), kind, len(b), fn)):
                continue
            for x, y in zip(a, b):
                for f, v in y.items():
                    if f == "visible" and self.ftype == "osm":
                        continue
                    if f == "pos" and 214748364700 in v:
                        continue
                    ctx.require(x.get(f) == v, "%s:%s" % (kind, f), "%s: %s of %s %s is %s when read, expected %s (%s)" % (self.what(), f, kind, y["id"], str(x.get(f))[:80], str(v)[:80], fn))
        return where


def objects():
    base = dict(id=1, version=1, changeset=0, timestamp=0, uid=-1, user="", visible=True)
    B = lambda **k: dict(base, **k)
    out = []
    for n, kind in enumerate(("node", "way", "relation")):
        out += [B(kind=kind), B(kind=kind, id=-17 - n, version=2, changeset=3, timestamp=5, uid=7, user="joe", tags=[("k", "v")]),
                B(kind=kind, id=(1 << 40) + 9, version=70000, changeset=2147483647, timestamp=1 << 32, uid=2147483647, user=SPECIAL, visible=False, tags=[(SPECIAL, "joe"), ("", ""), ("k", SPECIAL)])]
    for o, p in zip(out[:3], ((0, 0), (111, -1003), (-1800000000, 900000000))):
        o["pos"] = p
    out[4]["nodes"], out[5]["nodes"] = [5], [5, -6, (1 << 41) + 3, 5]
    out[7]["members"], out[8]["members"] = [("n", 5, "")], [("w", -6, SPECIAL), ("r", (1 << 41) + 3, "k"), ("n", 5, "inner"), ("w", 7, "inner")]
    return out


def some(kind, k, plain=False):
    """the k-th of many objects without any pattern in its values"""
    if plain:
        return dict(kind=kind, id=k * k, version=0, changeset=0, timestamp=0, uid=-1, user="", visible=True)
    h = pow(k + 3, 5, 16777213)
    o = dict(kind=kind, id=h % 1009 + 7 * k, version=1 + h % 5, changeset=h % 97, timestamp=1000 + h % 1013, uid=1 + h % 89, user="u%d" % (h % 3), visible=True, tags=[("a%d" % (k % 3), "b%d" % (h % 2))] * (h % 2))
    if kind == "node":
        o["pos"] = (h % 3001, h % 2003)
    if kind == "way":
        o["nodes"] = [h % 101, h % 103]
    if kind == "relation":
        o["members"] = [("n", h % 107, "r%d" % (h % 2))]
    return o


def jump(p, kind, n0):
    """p after n0 and more objects of a kind: cells that count objects, and what one more adds; None if nothing counts"""
    snap = []
    for k in range(4):
        p.add(some(kind, n0 + k))
        snap.append(p.cells())
    if p.dead:
        return None
    out = {}
    for c in snap[-1]:
        v = [s.get(c) for s in snap]
        if None not in v:
            d = [b - a for a, b in zip(v, v[1:])]
            if d[0] > 0 and len(set(d)) == 1:
                out[c] = (d[0], v[-1])
    return out


def limits(ctx, m, ftype, dense, kinds, after, more):
    p = Play(ctx, m, ftype, dense, msgsize=7)
    c = jump(p, kinds, 0)
    if c is None:
        return
    if not c:
        ctx.count("undecided limits")
        return
    for n in more:
        q = p.copy()
        held = len(q.objects)
        for cell, (inc, val) in c.items():
            q.r.mem[(X, cell)] = I(sgn(val + inc * (n - held), 32))
        for k, kind in enumerate([after] * 5 + ["node", "way", "relation"]):
            q.add(some(kind, 50 + k, k < 3))
        where = q.done()
        ctx.count("limits examined")
        if where is None:
            continue
        # the first block holds n objects by its counters
        extra = max(0, len(where[0]) - held) if where else 0
        at = site(m, "drv_" + after)
        ctx.require(n + extra <= max(FULL, n), "limit", "%s: a %s is added to a block that holds %d objects (%s)" % (q.what(), after, n + extra - 1 if extra else n, at))
    # the counters start afresh
    q = p.copy()
    for turn in range(2):
        now = q.cells()
        for cell, (inc, val) in c.items():
            if turn == 0:
                q.r.mem[(X, cell)] = I(val + inc * (FULL - 4))
        if turn == 0:
            q.add(some(after, 60))
            f = q.cells()
            if q.dead:
                return
            for cell, (inc, val) in c.items():
                if inc == 1:
                    ctx.require(f.get(cell, 0) <= 1, "reset", "after a block of %d objects was written the count of objects is %s (%s)" % (FULL, f.get(cell), site(m, "drv_" + after)))


def run(ctx):
    ctx.rules = ["what is written is a sequence of complete blobs with matching sizes, a header first", "every object is decoded from exactly one block, with all of its values", "a block holds at most 8000 objects and its string table only strings of its objects",
                 "counters, deltas and strings start afresh in each block", "the header names the features the blocks need"]
    ctx.assumptions = ["the string table is an injective renumbering (C05)", "protobuf serialises messages as they are", "one more object of a kind changes the counters of the writer by the same amounts"]
    m = load()
    obs = objects()
    for ft in ("osm", "osh", "osc"):
        for dense, z, meta in itertools.product((True, False), (False, True), (True, False)):
            if ft == "osc" and (z or not meta):
                continue
            seqs = [[], obs, list(reversed(obs)), obs[::2] + obs[1::2], obs[:1], obs[3:4], obs[6:7], obs[1:] + obs[:1] + obs[4:5], obs[:3] + obs[:3]]
            for k, s in enumerate(seqs):
                p = Play(ctx, m, ft, dense, z, meta, bounds=[(1, 2), (3, 4)] if k % 2 else ())
                for o in s:
                    p.add(o)
                p.done()
    # every short sequence of kinds
    for l in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for s in itertools.product(("node", "way", "relation"), repeat=l):
            for dense in (True, False):
                p = Play(ctx, m, "osm", dense)
                for k, kind in enumerate(s):
                    p.add(some(kind, k))
                p.done()
    # boundaries
    for dense in (True, False):
        for a, b in itertools.product(("node", "way", "relation"), repeat=2):
            if dense or "node" in (a, b):
                limits(ctx, m, "osm", dense, a, b, (FULL - 3, FULL - 1, FULL) + ((FULL - 2, FULL + 1, 6000) if ctx.thorough else ()))
    # large objects
    for kinds, first in ((("way",), ()), (("relation",), ()), (("way", "relation"), ()), (("way",), ("node", "relation")), (("relation",), ("node", "way"))):
        big = 1 << 20
        p = Play(ctx, m, "osm", msgsize=big)
        for k in range(36):
            p.add(some((first + kinds * 36)[k], k))
        where = p.done() or ()
        for n, b in enumerate(where):
            size = lambda x: big * sum(1 for o in x if o["kind"] != "node")
            ctx.require(size(b) <= MAXBLOCK, "size", "%s: objects of %d bytes are put into one block (%s)" % (p.what(), size(b), site(m, "drv_" + kinds[0])))
            if n + 1 < len(where):
                ctx.require(size(b) + size(where[n + 1]) > MAXBLOCK // 2, "early", "%s: block %d is written with %d objects of %d bytes altogether, although it is not full (%s)" % (p.what(), n + 1, len(b), size(b), site(m, "drv_" + kinds[0])))
    ctx.at_least("files decoded", 60)
    ctx.at_least("limits examined", 10)
