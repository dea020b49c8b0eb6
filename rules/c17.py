"""Every callback of every wrapping handler is interpreted abstractly: on each path that returns, the calls of the wrapped
handlers must be exactly the same callback, once per wrapped handler, in order, with the same argument. Callbacks with a
documented deviation (added end times, time range, merged objects) may only deviate in the documented way."""
from rules.handlers import *
import re

ARG = {"init": META, "node": obj("ptr.o"), "way": obj("ptr.o"), "relation": obj("ptr.o"), "area": obj("ptr.o"), "set_debug_level": obj("=level")}
SHOWN = {"init": "meta", "node": "o", "way": "o", "relation": "o", "area": "o", "set_debug_level": "level"}
NAMES = {"fwd": "Handler::Forward", "seq": "Handler::Sequence", "end": "Handler::EndTime", "range": "Handler::RangeFromHistory", "apply": "ObjectStore::ApplyHandler",
         "pass2": "Assembler::HandlerPass2", "out": "Output::Handler", "base": "Handler::Base"}


def cells(kit, cb, **f):
    if cb in KINDS:
        return kit.object("o", cb, **f)
    if cb == "area":
        return {(obj("ptr.o"), 0): obj("o")}
    return {}


def single(kit, h, cb, before, mem=None, world=None, **f):
    """final states after the calls `before` and one call of callback cb"""
    w = world or World(kit.m)
    calls = list(before) + [("drv_%s_%s" % (h, cb), [W] + ([ARG[cb]] if cb in ARG else []), cells(kit, cb, **f))]
    return play(kit.m, w, mem or {}, calls)


def expected(cb, who):
    return tuple((p, cb) + ((SHOWN[cb],) if cb in SHOWN else ()) for p in who)


def judge(ctx, kit, h, cb, states, want, allow=None):
    ctx.count("callbacks examined")
    ctx.count("paths examined", len(states))
    key = "%s:%s" % (h, cb)
    for s in states:
        got = tuple(e for e in s.auto if e[0] != "store")
        good = got == want or allow is not None and allow(got, s)
        ctx.require(good, key, "%s::%s leads to %s, expected %s (%s)" % (NAMES[h], cb, words(got), words(want), site(kit.m, "drv_%s_%s" % (h, cb))))
        if not good:
            return


def simple(ctx, kit, h, who, new, extra=()):
    for cb in CALLBACKS + tuple(extra):
        if "drv_%s_%s" % (h, cb) in kit.m.fns:
            judge(ctx, kit, h, cb, single(kit, h, cb, new), expected(cb, who))


def run(ctx):
    ctx.rules = ["a callback does not call the same callback of each wrapped handler exactly once, in order, with its own argument", "the default handler has an effect"]
    ctx.assumptions = ["callbacks of wrapped handlers return normally on the paths judged", "documented deviations: EndTime delays objects (C18), RangeFromHistory drops objects (C18), ApplyHandler adds stored objects and their sections and passes its own meta to init (C28)"]
    m = load()
    kit = Kit(m)
    simple(ctx, kit, "fwd", "1", [("drv_fwd_new", [W, P1], {})], ["set_debug_level"])
    simple(ctx, kit, "seq", "12", [("drv_seq_new", [W, P1, P2], {})], ["set_debug_level"])
    new = [("drv_end_new", [W, P1], {})]
    for cb in CALLBACKS:
        judge(ctx, kit, "end", cb, single(kit, "end", cb, new), () if cb in KINDS else expected(cb, "1"))
    new = [("drv_range_new", [W, P1, I(100), I(200)], {})]
    for cb in CALLBACKS:
        judge(ctx, kit, "range", cb, single(kit, "range", cb, new, timestamp=150, endtime=0), expected(cb, "1"))
    apply_handler(ctx, kit)
    pass2(ctx, Kit(translate("handlers.cpp", also=(FOREACH, STDFN, r"boost::shared_ptr<[^()]*>::(shared_ptr|~shared_ptr|operator->|operator\*|get|operator bool)"))))
    output(ctx, kit)
    base(ctx, kit)
    ctx.at_least("callbacks examined", 60)


def apply_handler(ctx, kit):
    so = kit.sets()
    if len(so) != 3:
        ctx.count("undecided handlers")
        return
    for cb in CALLBACKS:
        w = World(kit.m, {(S, so[k]): (k, []) for k in KINDS})
        st = play(kit.m, w, w.cells(), [("drv_apply_new", [W, S, P1, META2], {}), ("drv_apply_" + cb, [W] + ([ARG[cb]] if cb in ARG else []), cells(kit, cb))])
        judge(ctx, kit, "apply", cb, st, expected(cb, "1") if cb != "init" else (("1", "init", "meta2"),))


class Hooked(World):
    """calls of the assembler's own hooks: only one after the chained handler was called is an event"""
    probe = re.compile(r"\b(?:P<(?=\d>)|(?=Asm::))(\d|Asm)(?:>)?::(\w+)\(")

    def event(self, st, ev):
        if ev[0] == "Asm" and (not st.auto or ("Asm", "late") in st.auto):
            return [("ret", None, st)]
        return World.event(self, st, ("Asm", "late") if ev[0] == "Asm" else ev)

    def arith(self, ai, st, inst, op, a, b):
        return None

    def no_havoc(self, ai, st, addr, inst):
        return World.no_havoc(self, ai, st, addr, inst) or addr[0] in (obj("ptr.o"), obj("o"))


def pass2(ctx, kit):
    for cb in CALLBACKS:
        if "drv_pass2_" + cb not in kit.m.fns:
            continue
        st = single(kit, "pass2", cb, [], world=Hooked(kit.m))
        ctx.count("callbacks examined")
        ctx.count("paths examined", len(st))
        want = expected(cb, "1")
        for s in st:
            got = tuple(e for e in s.auto if e[0] == "1")
            if not ctx.require(got == want, "pass2:" + cb, "%s::%s leads to %s, expected %s (%s)" % (NAMES["pass2"], cb, words(got), words(want), site(kit.m, "drv_pass2_" + cb))):
                break
            if not ctx.require(got == s.auto, "pass2:%s:order" % cb, "the chained handler is called before the assembler is done with %s" % cb):
                break


class Virtual(World):
    probe = re.compile(r"\bOsmium::Output::(PBF|XML)::(init|node|way|relation|final|before_\w+|after_\w+|area)\(")


def output(ctx, kit):
    """Output::Handler calls the virtual methods of the output it owns"""
    m = kit.m
    for cls in ("PBF", "XML"):
        tab = "_ZTVN6Osmium6Output3%sE" % cls
        if tab not in m.globals:
            raise AnalysisBroken("no virtual table of Output::" + cls)
        for cb in CALLBACKS:
            if "drv_out_" + cb not in m.fns:
                continue
            mem = {(W, 8): obj("=out"), (obj("=out"), 0): ("p", ("glob", tab), 16)}
            st = single(kit, "out", cb, [], mem, Virtual(m))
            # the output classes have no section callbacks of their own
            want = expected(cb, (cls,)) if cb in ("init", "node", "way", "relation", "final") else ()
            judge(ctx, kit, "out", cb, st, want)


def base(ctx, kit):
    """the default handler does nothing"""
    m = kit.m
    for cb in CALLBACKS:
        fn = m.fn("drv_base_" + cb)
        ctx.count("callbacks examined")
        bad = [i for b in fn.blocks for i in b if i.op == "store" or i.is_call and not (m.base(i) or "").startswith("llvm.")]
        ctx.require(not bad, "base:" + cb, "Handler::Base::%s has an effect (%s)" % (cb, m.line(bad[0]) if bad else ""))
