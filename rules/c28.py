"""Feeding, replaying and merging an object store are interpreted abstractly for all relative orders of small sets of stored
objects and streamed objects: the calls a handler gets must be the callback protocol with every object exactly once, ordered
by kind and object order, and objects may be cleared only after they were delivered and only when that was asked for."""
from rules.handlers import *

SECTION = {"node": "nodes", "way": "ways", "relation": "relations"}
A, B, C, D, E = (3, 1), (3, 2), (-9, 1), (2 ** 33, 4), (2 ** 33, 2 ** 31 + 5)


def keyof(o):
    return (abs(o[0]), o[0], o[1])


class Store:
    def __init__(self, ctx, kit):
        self.ctx, self.kit, self.m = ctx, kit, kit.m
        self.so = kit.sets()
        if len(self.so) != 3:
            raise AnalysisBroken("the sets of the object store cannot be located")

    def world(self, stored):
        """stored: kind -> list of (id, version) in order"""
        sets, mem, self.key = {}, {}, {}
        for k in KINDS:
            names = []
            for n, o in enumerate(sorted(stored.get(k, ()), key=keyof)):
                name = "stored_%s%d" % (k, n + 1)
                names.append(name)
                self.key[name] = keyof(o)
                mem.update(self.kit.object(name, k, id=o[0], version=o[1], timestamp=5))
            sets[S, self.so[k]] = (k, names)
        w = World(self.m, sets)
        mem.update(w.cells())
        return w, mem

    def names(self, k):
        return ["stored_%s%d" % (k, n) for n in range(1, 9) if "stored_%s%d" % (k, n) in self.key]

    # ---- feeding ----------------------------------------------------
    def insertion(self, k):
        """an object is kept unless an object with the same id and version is there"""
        for x, o in itertools.product((A, B, C, D, E), repeat=2):
            w, mem = self.world({k: [x]})
            st = play(self.m, w, mem, [("drv_store_" + k, [S, self.kit.ptr("new")], self.kit.object("new", k, id=o[0], version=o[1]))])
            self.ctx.count("order types examined")
            for s in st:
                ins = [e for e in s.auto if e[:2] == ("store", "insert")]
                key = "store:" + k
                self.ctx.require(len(ins) == int(o != x), key, "a %s with id %d version %d is %s when one with id %d version %d is stored (%s)" % (
                    k, o[0], o[1], "not kept" if not ins else "stored", x[0], x[1], site(self.m, "drv_store_" + k)))
                for e in ins:
                    self.ctx.require(e[2] == k, key + ":kind", "a %s is stored among the %ss" % (k, e[2]))
                    self.ctx.require(e[3] == "new", key + ":object", "storing a %s does not store that object" % k)
                    if e[4] is not None:
                        self.ctx.require((e[4].split()[0] == "before") == (keyof(o) < keyof(x)), key + ":order", "a %s with id %d version %d is stored %s one with id %d version %d" % (k, o[0], o[1], e[4].split()[0], x[0], x[1]))
        w, mem = self.world({})
        for s in play(self.m, w, mem, [("drv_store_" + k, [S, self.kit.ptr("new")], self.kit.object("new", k, id=1, version=1))]):
            ins = [e for e in s.auto if e[:2] == ("store", "insert")]
            self.ctx.require(len(ins) == 1 and ins[0][2:4] == (k, "new"), "store:%s:first" % k, "a %s given to an empty store is not kept" % k)

    # ---- judging a trace --------------------------------------------
    def judge(self, key, what, s, stream, sections, meta, clear, stored):
        """stream: kind -> names of streamed objects in order; clear: are stored objects to be cleared?"""
        got = [e for e in s.auto if e[0] != "store"]
        if any("?" in e for e in got):
            self.ctx.count("undecided traces")
            return
        req = self.ctx.require
        pos = 0

        def take(e, why):
            nonlocal pos
            if pos < len(got) and got[pos] == e:
                pos += 1
                return True
            req(False, key, "%s: the handler gets %s where %s is due (%s)" % (what, text(got[pos]) if pos < len(got) else "nothing more", text(e), why))
            return False
        if not take(("1", "init", meta), "the protocol starts with init"):
            return
        for k in KINDS:
            mine = (stream.get(k) or []) + (self.names(k) if stored else [])
            if not mine and k not in sections:
                continue
            if not take(("1", "before_" + SECTION[k]), "every section is bracketed"):
                return
            seen = []
            while pos < len(got) and got[pos][1] == k:
                seen.append(got[pos][2])
                pos += 1
            for n in mine:
                if seen.count(n) != 1:
                    req(False, key, "%s: the %s %s is delivered %d times" % (what, k, n, seen.count(n)))
                    return
            if len(seen) != len(mine):
                req(False, key, "%s: the handler gets %ss that were not given" % (what, k))
                return
            bad = next((p for p in zip(seen, seen[1:]) if self.key[p[0]] > self.key[p[1]]), None)
            if bad:
                req(False, key, "%s: %s (id %d version %d) is delivered before %s (id %d version %d)" % ((what,) + (bad[0],) + self.key[bad[0]][1:] + (bad[1],) + self.key[bad[1]][1:]))
                return
            if not take(("1", "after_" + SECTION[k]), "every section is bracketed"):
                return
        if not take(("1", "final"), "the protocol ends with final"):
            return
        if pos < len(got):
            req(False, key, "%s: the handler gets %s after final" % (what, text(got[pos])))
            return
        req(True, key, "")
        evs = s.auto
        for k in KINDS:
            cl = [n for n, e in enumerate(evs) if e[:3] == ("store", "clear", k)]
            last = max([n for n, e in enumerate(evs) if e[0] == "1" and e[1] == k and str(e[2]).startswith("stored_")], default=-1)
            if not stored or not self.names(k):
                continue
            if clear is False:
                req(not cl, key + ":clear", "%s: the stored %ss are cleared although that was not asked for" % (what, k))
            elif clear:
                req(bool(cl), key + ":clear", "%s: the stored %ss are not cleared" % (what, k))
            req(not cl or min(cl) > last, key + ":clear", "%s: the stored %ss are cleared before they have been delivered" % (what, k))

    def replay(self):
        sizes = ([], [A], [A, B, D]) if not self.ctx.thorough else ([], [A], [A, B], [A, B, C, D, E])
        for objs in itertools.product(sizes, repeat=3):
            stored = dict(zip(KINDS, objs))
            for clear in (True, False):
                w, mem = self.world(stored)
                st = play(self.m, w, mem, [("drv_store_feed", [S, P1, META, I(int(clear))], {})])
                self.ctx.count("stores replayed")
                self.ctx.count("final states", len(st))
                what = "a store with %d nodes, %d ways and %d relations fed to a handler %s clearing" % (tuple(len(x) for x in objs) + ("with" if clear else "without",))
                for s in st:
                    self.judge("feed_to", what, s, {}, KINDS, "meta", clear, True)
                if not st:
                    self.ctx.count("undecided traces")
        # a second replay delivers the same objects if they were kept and none if they were cleared
        for clear in (True, False):
            w, mem = self.world({k: [A, D] for k in KINDS})
            first = play(self.m, w, mem, [("drv_store_feed", [S, P1, META, I(int(clear))], {})])
            for f in first:
                m2 = dict(f.mem)
                for s in play(self.m, w, m2, [("drv_store_feed", [S, P1, META, I(0)], {})]):
                    self.judge("feed_to:again", "a store fed to a handler again after it was fed %s clearing" % ("with" if clear else "without"), s, {}, KINDS, "meta", False, not clear)

    def merge(self):
        items = [A, B, C, D]
        cases = []
        for k in KINDS:
            for r in range(0, 3):
                for own in itertools.combinations([A, C, D], r):
                    for q in range(0, 3):
                        for other in itertools.combinations([B, C, E] if not self.ctx.thorough else [A, B, C, E], q):
                            cases.append(({k: list(own)}, {k: list(other)}))
        one = [[], [A]]
        for sto in itertools.product(one, repeat=3):
            for inp in itertools.product([None, [], [B]], repeat=3):
                cases.append((dict(zip(KINDS, sto)), {k: x for k, x in zip(KINDS, inp) if x is not None}))
        for stored, stream in cases:
            w, mem = self.world(stored)
            calls = [("drv_apply_new", [W, S, P1, META2], {}), ("drv_apply_init", [W, META], {})]
            names = {}
            for k in KINDS:
                if k not in stream:
                    continue
                calls.append(("drv_apply_before_" + SECTION[k], [W], {}))
                names[k] = []
                for n, o in enumerate(sorted(stream[k], key=keyof)):
                    name = "input_%s%d" % (k, n + 1)
                    names[k].append(name)
                    self.key[name] = keyof(o)
                    calls.append(("drv_apply_" + k, [W, self.kit.ptr(name)], self.kit.object(name, k, id=o[0], version=o[1], timestamp=6)))
                calls.append(("drv_apply_after_" + SECTION[k], [W], {}))
            calls.append(("drv_apply_final", [W], {}))
            st = play(self.m, w, mem, calls)
            self.ctx.count("streams merged")
            self.ctx.count("final states", len(st))
            d = lambda x: ", ".join("%s %s" % (k, " ".join("%d/v%d" % o for o in v) or "none") for k, v in x.items()) or "nothing"
            for s in st:
                self.judge("merge", "merging a store (%s) into a stream (%s)" % (d({k: v for k, v in stored.items() if v}), d(stream)), s, names, tuple(stream), "meta2", None, True)
            if not st:
                self.ctx.count("undecided traces")


def run(ctx):
    ctx.rules = ["an object is lost, repeated or out of order", "the callback protocol is not kept", "objects are cleared before delivery or without being asked"]
    ctx.assumptions = ["the representation of std::set is the one of the C++ library installed", "small sets with all relative orders stand for all sets: the loops carry only a position in the set"]
    s = Store(ctx, Kit(load()))
    for k in KINDS:
        s.insertion(k)
    s.replay()
    s.merge()
    ctx.at_least("streams merged", 100)
    ctx.at_least("stores replayed", 20)
