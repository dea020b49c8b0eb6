"""Shared by C17, C18 and C28: one translation of the wrapping handlers, and the vocabulary of their scenarios."""
import json, itertools
from ir import translate, AnalysisBroken, FOREACH, STDFN
from absint import I
from scenario import World, play, obj, SHARED
from terms import Terms
from rules.model import root, off
from rules.c13 import cell_of

KINDS = ("node", "way", "relation")
CALLBACKS = ("init", "before_nodes", "node", "after_nodes", "before_ways", "way", "after_ways", "before_relations", "relation", "after_relations", "area", "final")
W, P1, P2, S, META, META2 = obj("W"), obj("=p1"), obj("=p2"), obj("S"), obj("=meta"), obj("=meta2")
FIELDS = ("id", "version", "timestamp", "endtime")


def load():
    return translate("handlers.cpp", also=(FOREACH, STDFN) + SHARED)


class Kit:
    def __init__(self, m):
        self.m = m
        self.off = {}
        for k in KINDS:
            for f in FIELDS:
                o = cell_of(m, m.fn("drv_get_%s_%s" % (k, f)))
                if o is None:
                    raise AnalysisBroken("cannot find the %s of a %s" % (f, k))
                self.off[k, f] = o

    def object(self, name, kind, **f):
        c = {(obj("ptr." + name), 0): obj(name)}
        for x in FIELDS:
            c[(obj(name), self.off[kind, x])] = I(f.get(x, 0))
        return c

    def ptr(self, name):
        return obj("ptr." + name)

    def sets(self):
        """offsets of the sets of an object store, by kind"""
        r = {}
        for k in KINDS:
            fn = self.m.fn("drv_store_" + k)
            T = Terms(self.m, fn)
            at = set()
            for b in fn.blocks:
                for i in b:
                    if i.is_call and "_Rb_tree_insert_and_rebalance" in (self.m.callee(i) or ""):
                        t = T.t(i.args[3])
                        if root(t) == ("arg", 0):
                            at.add(off(t) - 8)
            if len(at) == 1:
                r[k] = at.pop()
        return r


def text(e):
    """an event in words"""
    def a(x):
        return x if isinstance(x, str) else x[0] + "[" + ", ".join("%s=%s" % y for y in x[1:]) + "]" if isinstance(x, tuple) else str(x)
    if e[0] == "store":
        return "%s of the stored %ss%s" % (e[1], e[2], " of %s" % e[3] if len(e) > 3 else "")
    return "%s(%s) of handler %s" % (e[1], ", ".join(a(x) for x in e[2:]), e[0])


def words(evs):
    return "; ".join(text(e) for e in evs) if evs else "nothing"


def site(m, fn):
    """file and function of the library code behind a driver function"""
    for b in m.fn(fn).blocks:
        for i in b:
            l = m.line(i)
            if l != "?" and "drivers" not in l:
                return l
    return "?"
