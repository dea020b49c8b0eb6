"""The PBF writer is interpreted abstractly over sequences of objects, in every configuration, with several granularities; protobuf
messages are trees, so that what is written is decoded with the format's equations and compared with the objects given: every number of
tags, references and members after every other, all kinds among each other, numbers of every width, several blocks, string tables that
hold many strings before. The string table itself is interpreted through sequences of strings that are recorded, stored, mapped and
cleared, and ids in it are required to be kept in 32 bits everywhere. Nothing is executed."""
import itertools
from absint import I
from scenario import obj
from rules import c06, strtab
from rules.handlers import site
from rules.pbfw import Pbf, X
from rules.readx import bruijn


def run(ctx):
    ctx.rules = ["a field of an object that is decoded differs from what was given", "lists of a block do not match in length, or refer to strings that are not in its table", "a string is not found under its final id, or the reserved entry is missing",
                 "string ids are kept in fewer than 32 bits", "a member of an unknown type is written as one of a known type"]
    ctx.assumptions = ["protobuf setters store what they are given", "objects are a finite family of representatives; see the docstring of the rule", "the standard containers of the string table are models"]
    grids(ctx)
    contents(ctx)
    strtab.run(ctx)
    strtab.widths(ctx)


# -- granularities -------------------------------------------------------------------------------------
def nearest(v, unit, gran):
    """what a reader gets for v, given in the unit, with a granularity (no ties)"""
    return (2 * v * unit + gran) // (2 * gran) * gran


def grids(ctx):
    """the writer is interpreted with several granularities; what a reader decodes is the nearest multiple"""
    m = c06.load()
    for gran, date in ((100, 1000), (1000, 1000), (100000, 1000), (100000, 60000), (100, 500), (300, 1500), (1, 1)):
        for dense in (True, False):
            for meta in (True, False):
                p = c06.Play(ctx, m, "osh", dense, False, meta, want=lambda o, meta: wanted(o, meta, gran, date))
                p.do("drv_gran", I(gran))
                p.do("drv_date", I(date))
                for k, xy in enumerate(((0, 0), (1, -1), (-12301, 12301), (-12399, 12399), (1799999999, -899999999), (-1800000000, 900000000), (-4, 4))):
                    p.add(dict(kind="node", id=k - 3, pos=xy, version=k + 1, changeset=k, timestamp=60 * (k * k + 1), uid=k, user="u%d" % k, visible=True, tags=[("k", "v%d" % k)] * (k % 3)))
                p.add(dict(kind="way", id=5, version=1, changeset=7, timestamp=120, uid=1, user="u", visible=True, nodes=[3, 4]))
                p.add(dict(kind="relation", id=5, version=1, changeset=7, timestamp=1 << 32, uid=1, user="u", visible=True, members=[("n", 3, "r")]))
                p.done()


def wanted(o, meta, gran, date):
    r = c06.wanted(o, meta)
    if "pos" in r:
        r["pos"] = tuple(nearest(v, 100, gran) for v in o["pos"])
    if meta:
        r["timestamp"] = nearest(o["timestamp"], 1000, date)
    return r


# -- contents ------------------------------------------------------------------------------------------
def contents(ctx):
    """the writer is interpreted over sequences of objects with every number of tags, references and members after every other"""
    m = c06.load()
    T = lambda n, x: [("k%d" % (y % 3), "v%d" % ((n + y) % 5) if (n + y) % 4 else "") for y in range(x)]
    wide = [0, 1, -1, 127, -128, 300, 32767, -32769, 65536, 2 ** 31 - 1, 5, 2 ** 31, -2 ** 31, 2 ** 32 + 7, -2 ** 40, 2 ** 53 + 1, 3]
    u32 = [0, 1, 2 ** 31 - 1, 3, 128, 65536, 7, 40000, 2 ** 31 - 1, 0]
    ts = [0, 1, 2 ** 31 - 1, 2 ** 31, 1325376000, 2 ** 32 - 1, 60, 4102444800, 2]

    def o(kind, n, x, **more):
        d = dict(kind=kind, id=(n * n - 9 * n) * 3 + 1, version=1 + n % 4, changeset=(n * 7) % 11, timestamp=1000 + (n * 5) % 13, uid=1 + n % 6, user="u%d" % (n * 3 % 4) if n % 5 else "", visible=True, tags=T(n, x))
        if kind == "node":
            d["pos"] = ((n * 37) % 101 - 50, (n * 53) % 97 - 40)
        if kind == "way":
            d["nodes"] = [9 * n - 4 * y for y in range((x + n) % 4)]
        if kind == "relation":
            d["members"] = [("nwr"[(n + y) % 3], 9 * n - 4 * y, "r%d" % ((y + n) % 3) if y + n & 1 else "") for y in range((x + n) % 5)]
        d.update(more)
        return d

    def play(l, ftype="osm", dense=True, meta=True, base=0, **more):
        w = Pbf(m)
        w.base = base
        p = c06.Play(ctx, m, ftype, dense, False, meta, w=w, **more)
        for x in l:
            p.add(x)
        p.done()
        ctx.count("sequences of objects")
    kinds = ("node", "way", "relation")
    for dense in (True, False):
        for size, order in ((4, 2), (3, 3)):
            l = bruijn(size, order)
            for kind in kinds if dense else kinds[:1]:
                for q, ft in enumerate(("osm", "osh")):
                    play([o(kind, n, x, visible=bool((n * n + q + x) % 3) if q else True) for n, x in enumerate(l)], ft, dense, base=0 if q else 70000)
                    play([o(kind, n, x) for n, x in enumerate(l)][::-1 if size == 4 else 1], ft, dense, meta=False, base=70000 * (1 - q))
        # kinds among each other
        for ft in ("osm", "osh"):
            play([o(kinds[x], n, n % 4, visible=n % 3 > 0 or ft == "osm") for n, x in enumerate(bruijn(3, 2))], ft, dense, base=(1 << 24) + 1)
            for vis in itertools.product((True, False), repeat=3):
                for kind in kinds:
                    if ft == "osh" and (dense or kind == "node"):
                        play([o(kind, n, 1, visible=v) for n, v in enumerate(vis)], ft, dense)
        # widths
        for kind in kinds if dense else kinds[:1]:
            play([o(kind, n, 0, id=x) for n, x in enumerate(wide)], dense=dense)
            play([o(kind, n, 0, uid=x, changeset=u32[n - 3], version=u32[n - 5] or 1, timestamp=ts[n % 9], user="u%d" % n) for n, x in enumerate(u32)], dense=dense, base=1 << 20)
            play([o(kind, n, 0, uid=u32[n - 2], changeset=x, version=u32[n - 7] or 2) for n, x in enumerate(u32)][::-1], "osh", dense=dense)
        c = [0, 1, -1, 5, 900000000, -900000000, 899999999, -3, 1, 123456789, -123456789]
        play([o("node", n, 0, pos=(x * 2 if n % 2 else x, -x)) for n, x in enumerate(c)], dense=dense)
        play([o("node", n, 0, pos=(x, c[n - 3])) for n, x in enumerate(c)], dense=dense, meta=False)
    play([o("way", 1, 1, nodes=wide), o("way", 2, 0, nodes=wide[::-1]), o("way", 3, 2, nodes=[5, 5, 5]), o("way", 3, 2, nodes=[7])])
    play([o("relation", 1, 1, members=[("nwr"[k % 3], x, "r%d" % (k % 4)) for k, x in enumerate(wide)]), o("relation", 2, 0, members=[("rwn"[k % 3], x, "") for k, x in enumerate(wide[::-1])])], base=70000)
    n = 300
    play([o("way", 1, 1, nodes=[k * k % 301 for k in range(n)])])
    play([o("way", 1, 1, tags=[("k%d" % k, "v%d" % (k % 7)) for k in range(n)])])
    play([o("relation", 1, 1, members=[("nwr"[k % 3], k * k % 301, "r%d" % k) for k in range(n)])])
    play([o("node", 1, 1, tags=[("k%d" % k, "v%d" % (k % 7)) for k in range(n)]), o("node", 2, 2)])
    # several blocks
    for s in itertools.product(kinds, repeat=3):
        play([o(k, n + j * 4, 2, user="only %d" % n) for j in range(2) for n, k in enumerate(s)], msgsize=12 << 20, dense=s[0] != "node" or s[1] == "way")
    # a member whose type is none
    for t in ("x", "N", "\0", "W"):
        p = c06.Play(ctx, m)
        if not p.dead and p.r.make("BAD", "relation", members=[("n", 1, "r"), (t, 2, "r")]):
            how = p.r.step("drv_relation", X, obj("ptr.BAD"))
            ctx.count("unknown member types")
            ctx.require(how is None or how == "bad" or isinstance(how, tuple), "types", "a member of the unknown type %r is written as if it were of a known one (%s)" % (t, site(m, "drv_relation")))
    ctx.at_least("sequences of objects", 60)


