"""Ownership by abstract interpretation: reading, writing and storing are interpreted over models of the operating system and of
the libraries in which every resource has a state (held, given back). Every call that can fail or throw does; every outcome is
followed to the end of its owner, where nothing may be held any more, and nothing may be given back or used twice on the way."""
import re
from ir import translate, AnalysisBroken, Undecided
from absint import Hooks, AbsInt, St, I, OTHER, path_lines
from scenario import obj
from seqs import Seqs
from rules.handlers import site
from rules.protocol import STOP
from rules.lists import run_fn
from rules.steps import Run
from rules import xmlw, pbfw, c06, c09, c14, c26
from rules.xmlw import X, FILE, NAME, META, S

PARSER, IN = obj("parser"), obj("heap")
FD, R, W, PID = 17, 40, 41, 4711
HELD, BACK = "held", "given back"


class Own(Hooks):
    """auto = sorted ((resource, state), ...)"""
    def __init__(self, ctx, where):
        self.ctx, self.where = ctx, where
        self.seen, self.unclear = set(), set()
        self.acquired = {}

    def other_matches(self, ti):
        return False if ti == STOP else None

    @staticmethod
    def get(st, r):
        return dict(st.auto).get(r)

    def set(self, st, r, v):
        n = st.copy()
        d = dict(st.auto)
        d[r] = v
        n.auto = tuple(sorted(d.items()))
        return n

    def bad(self, ai, st, inst, key, text):
        self.ctx.violation("%s:%s" % (self.where, key), "%s: %s (%s)" % (self.where, text, ai.m.loc(inst)), ["path: " + " > ".join(path_lines(ai, st))])

    def acquire(self, ai, st, inst, r, what):
        self.acquired[r] = ai.m.loc(inst)
        if self.get(st, r) == HELD:
            self.bad(ai, st, inst, "again:" + r, "%s is obtained again while the one before is still held" % r)
        return self.set(st, r, HELD)

    def release(self, ai, st, inst, r, what):
        self.ctx.count("releases")
        if self.get(st, r) != HELD:
            self.bad(ai, st, inst, "twice:" + r, "%s %s, which %s" % (what, r, "was given back before" if self.get(st, r) == BACK else "is not held"))
        return self.set(st, r, BACK)

    def use(self, ai, st, inst, r, what):
        if self.get(st, r) == BACK:
            self.bad(ai, st, inst, "use:" + r, "%s %s, which was given back" % (what, r))

    def order(self, ai, st, pred, a, b):
        for x, y in ((a, b), (b, a)):
            if x in (PARSER, IN) and y == I(0) and pred in ("eq", "ne"):
                return pred == "ne"
        return None

    def may_throw(self, ai, inst, name):
        return name is None or "::" in name or name.startswith(("operator", "XML_Parse", "__cxa")) or "<" in name

    def no_havoc(self, ai, st, addr, inst):
        n = ai.m.base(inst) or ""
        return n.startswith(("XML_", "__cxa", "std::runtime_error"))

    def desc(self, ai, st, v):
        n = ai.const_of(st, v)
        return {FD: "the file", R: "the read end of the pipe", W: "the write end of the pipe"}.get(n) if n is not None else None

    def call(self, ai, st, inst, name, args):
        b = name or ""
        num = lambda k: ai.const_of(st, args[k]) if k < len(args) else None
        if b in ("open", "open64", "creat"):
            return [("ret", I(FD), self.acquire(ai, st, inst, "the file", b)), ("ret", I(-1), st.copy())]
        if b in ("pipe", "pipe2"):
            a = ai.addr(args[0])
            if a is None:
                self.unclear.add("pipe")
                return None
            s = self.acquire(ai, self.acquire(ai, st, inst, "the read end of the pipe", b), inst, "the write end of the pipe", b)
            ai.clear(s, a[0], a[1], a[1] + 8)
            s.mem[a], s.mem[(a[0], a[1] + 4)] = I(R), I(W)
            return [("ret", I(0), s), ("ret", I(-1), st.copy())]
        if b in ("fork", "vfork"):
            return [("ret", I(PID), self.acquire(ai, st, inst, "the helper process", b)), ("ret", I(-1), st.copy())]
        if b == "close":
            n = num(0)
            r = self.desc(ai, st, args[0])
            if r is None:
                if n is None:
                    self.unclear.add("the descriptor given to close")
                elif n > 2:
                    self.bad(ai, st, inst, "close", "close of descriptor %d, which was not opened" % n)
                return [("ret", I(0), st)]
            s = self.release(ai, st, inst, r, "close of")
            return [("ret", I(0), s), ("ret", I(-1), s.copy())]
        if b == "read":
            r = self.desc(ai, st, args[0])
            if r:
                self.use(ai, st, inst, r, "read from")
            elif num(0) is None:
                self.unclear.add("the descriptor given to read")
            return None
        if b in ("waitpid", "wait", "wait4"):
            n = PID if b == "wait" else num(0)
            if n not in (PID, -1):
                if n is None:
                    self.unclear.add("the process waited for")
                else:
                    self.bad(ai, st, inst, "wait", "waits for process %s" % n)
                return None
            s = self.release(ai, st, inst, "the helper process", "waits for")
            a = ai.addr(args[0 if b == "wait" else 1])
            out = []
            for ret, status in ((PID, 0), (PID, 0x100), (-1, None)):
                x = s.copy()
                if a and status is not None:
                    ai.clear(x, a[0], a[1], a[1] + 4)
                    x.mem[a] = I(status)
                out.append(("ret", I(ret), x))
            return out
        if b in ("XML_ParserCreate", "XML_ParserCreateNS", "XML_ParserCreate_MM"):
            return [("ret", PARSER, self.acquire(ai, st, inst, "the XML parser", b)), ("ret", I(0), st.copy())]
        if b.startswith("XML_") and args and args[0] != I(0):
            if args[0] == PARSER:
                if b == "XML_ParserFree":
                    return [("ret", None, self.release(ai, st, inst, "the XML parser", "frees"))]
                self.use(ai, st, inst, "the XML parser", b + " with")
            elif b == "XML_ParserFree":
                self.unclear.add("the parser that is freed")
            if b in ("XML_ParseBuffer", "XML_Parse"):
                return [("ret", I(1), st), ("ret", I(0), st.copy()), ("throw", OTHER, st.copy()), ("throw", STOP, st.copy())]
        if b.startswith("operator new") and self.heap:
            return [("ret", IN, self.acquire(ai, st, inst, "the reader", b)), ("throw", OTHER, st.copy())]
        if b.startswith("operator delete") and self.heap:
            if args[0] == IN:
                return [("ret", None, self.release(ai, st, inst, "the reader", "deletes"))]
            if args[0] == I(0):
                return [("ret", None, st)]
            self.unclear.add("what is deleted")
        if b.startswith("Probe::"):
            return [("ret", None, st), ("throw", OTHER, st.copy()), ("throw", STOP, st.copy())]
        return None

    heap = False

    def access(self, ai, st, inst, ptr, size, write):
        a = ai.addr(ptr)
        if self.heap and a and a[0] == IN:
            self.use(ai, st, inst, "the reader", "writes to" if write else "reads from")

    def exit(self, ai, st, how, kind, inst):
        if ai.name is not None or how not in ("ret", "throw"):
            return
        self.ctx.count("ends examined")
        for r, v in st.auto:
            if v == HELD and not self.unclear:
                self.ctx.require(False, "%s:leak:%s" % (self.where, r), "%s %s while %s, obtained at %s, is still held" % (self.where, "ends" if how == "ret" else "ends with an exception", r, self.acquired.get(r)),
                                 ["path: " + " > ".join(path_lines(ai, st))])
            else:
                self.ctx.require(True, "", "")


def reading(ctx):
    m = translate("input.cpp", keep=[r"^Osmium::OSM::"])
    for where, fn in (("reading XML", "drv_xml"), ("reading PBF", "drv_pbf"), ("reading a file", "drv_read")):
        h = Own(ctx, where)
        h.heap = fn == "drv_read"
        ai = AbsInt(m, m.fn(fn), h)
        s = St()
        s.auto = ()
        ai.run(s)
        for u in h.unclear:
            ctx.count("undecided: " + u)
        ctx.count("abstract states", ai.nstates)
        for r in ("the file", "the helper process", "the read end of the pipe") + (("the XML parser",) if fn == "drv_xml" else ()):
            ctx.require(r in h.acquired, where + ":none", "%s never obtains %s" % (where, r)) if not h.unclear else None

    for kind in ("node", "way", "relation"):
        h = Rebuild(kind.capitalize())
        ai = AbsInt(m, m.fn("drv_prepare_" + kind), h)
        s = St()
        s.auto = ()
        ai.run(s)
        ctx.count("ways to prepare an object", len(h.ends))
        for auto in h.ends:
            for v in {v for _, v in auto}:
                order = [e for e, x in auto if x == v]
                ctx.require(order in (["destroyed", "made"], []), "prepare:" + kind, "preparing a %s: an object that is kept is %s (%s)" % (kind, " and then ".join(order), site(m, "drv_prepare_" + kind)))


class Rebuild(Hooks):
    """objects destroyed and made again in place"""
    def __init__(self, cls):
        self.cls, self.ends = cls, []

    def may_throw(self, ai, inst, name):
        return False

    def call(self, ai, st, inst, name, args):
        if args and args[0][0] == "s":
            short = (name or "").split("::")[-1]
            if name is None and len(args) == 1 and "ty" not in inst.d or short == "~" + self.cls:
                st.auto += (("destroyed", args[0]),)
            elif short == self.cls and "OSM::" in (name or ""):
                st.auto += (("made", args[0]),)
        return None

    def exit(self, ai, st, how, kind, inst):
        if how == "ret":
            self.ends.append(st.auto)


MINE = re.compile(r"was freed|was closed|was not opened|was ended|set up again|given back|the same memory|not obtained|another function|is not open|deleted")


class Hist:
    """histories: each outcome of a call is followed to the end of the owner"""
    def __init__(self, ctx, m, w, kind, held, ends):
        self.ctx, self.m, self.w, self.kind, self.held, self.ends = ctx, m, w, kind, held, ends

    def outcomes(self, fn, args, mem, auto, desc):
        try:
            l = run_fn(self.m, self.w, fn, list(args), mem, auto)
        except (Undecided, AnalysisBroken):
            self.ctx.count("undecided calls")
            return None
        if self.w.bad:
            mine = [(loc, b) for loc, b in self.w.bad.items() if MINE.search(b)]
            for loc, b in mine:
                self.ctx.require(False, "%s:%s" % (self.kind, b.split(" ")[0] + loc), "%s: %s in %s (%s)" % (self.kind, b, desc, loc))
            if not mine:
                self.ctx.count("undecided calls")
            self.w.bad.clear()
            return None
        return [(how, {k: x for k, x in st.mem.items() if k[0][0] != "alloca"}, st.auto) for how, v, kind, st in l]

    def quiet(self):
        f, self.w.fails = self.w.fails, ()
        s, self.w.shorts = getattr(self.w, "shorts", False), False
        return f, s

    def end(self, mem, auto, desc, ends=None):
        """the owner is destroyed"""
        old = self.quiet()
        states = [(mem, auto)]
        for fn, args in self.ends if ends is None else ends:
            out = {}
            for me, au in states:
                l = self.outcomes(fn, args, me, au, desc + ", " + fn[4:])
                if l is None:
                    self.w.fails, self.w.shorts = old
                    return
                for how, me2, au2 in l:
                    self.ctx.require(how == "ret", "%s:end throws" % self.kind, "%s: %s, %s ends with an exception (%s)" % (self.kind, desc, fn[4:], site(self.m, fn)))
                    out[(frozenset(me2.items()), au2)] = (me2, au2)
            states = list(out.values())
        self.w.fails, self.w.shorts = old
        for me, au in states:
            self.ctx.count("histories")
            for h in self.held(me, au) or [None]:
                self.ctx.require(h is None, "%s:%s" % (self.kind, h), "%s: after %s %s (%s)" % (self.kind, desc, h, site(self.m, (self.ends if ends is None else ends or [(self.first, ())])[-1][0] if (self.ends if ends is None else ends) else self.first)))

    def step(self, r, fn, args, cells=None, new=False):
        """every outcome of the call is the last one before the end"""
        mem = dict(r.mem)
        mem.update(cells or {})
        self.first = fn
        l = self.outcomes(fn, args, mem, r.auto, fn[4:])
        for how, me, au in l or ():
            f = [e for e in au[len(r.auto):] if e[0] == "fail"]
            desc = "%s%s%s" % (fn[4:], " where %s failed" % f[0][1] if f else "", " ended with an exception" if how == "throw" else "")
            self.end(me, au, desc, [] if new and how == "throw" else None)


def still(mem, auto):
    out = []
    for (b, o), v in mem.items():
        if o == "live" and v == I(1):
            n = str(b[1][1] if b[0] == "s" and isinstance(b[1], tuple) else b)
            out.append("the %s is still held" % ("XML buffer" if n.startswith("buf") else "XML writer" if n.startswith("xw") else "compression stream"))
        if b == obj("fd") and v == I(1) and isinstance(o, int) and o > 2:
            out.append("%s is still open" % ("the file" if o < 40 else "a pipe"))
        if o == "open" and v == I(1):
            out.append("the file %s is still open" % b[1][1])
    f, w = [sum(1 for e in auto if e[0] == k) for k in ("fork", "wait")]
    if f != w and not any(e[0] == "fail" and e[1] == "fork" for e in auto):
        out.append("the helper process was %s" % ("never waited for" if w < f else "waited for %d times" % w))
    return sorted(set(out))


def xml(ctx):
    m = xmlw.load()
    O = dict(id=5, version=3, changeset=7, timestamp=100, uid=3, user="joe")
    objs = [dict(kind="node", pos=(1, 2), **O), dict(kind="way", nodes=[5], tags=[("k", "v")], **O), dict(kind="relation", members=[("n", 5, "r")], **O)]
    for name in ("name.osm", "name.osc.gz", ""):
        w = xmlw.Xml(m)
        r = xmlw.Writer(m, w)
        h = Hist(ctx, m, w, "writing XML", still, [("drv_del", [X]), ("drv_file_del", [FILE])])
        ok = r.step("drv_file", FILE, NAME, cells={(NAME, 0): S(name)}) == "ret" and r.step("drv_meta", META) == "ret"
        steps = [("drv_new", X, FILE), ("drv_init", X, META)]
        for k, o in enumerate(objs):
            ok = ok and r.make("O%d" % k, **o)
            steps.append(("drv_" + o["kind"], X, obj("ptr.O%d" % k)))
        if not ok:
            ctx.count("undecided calls")
            continue
        for s in steps + [("drv_final", X)]:
            w.fails = ("*",)
            h.step(r, s[0], s[1:], new=s[0] == "drv_new")
            w.fails = ()
            if r.step(s[0], *s[1:]) != "ret":
                w.bad.clear()
                ctx.count("undecided calls")
                break


def pbf(ctx):
    m = pbfw.load()
    for ftype, name in (("osm", "name.osm.pbf"), ("osm", "")):
        w = pbfw.Pbf(m)
        w.msgsize = 1 << 20
        r = pbfw.PbfWriter(m, w)
        h = Hist(ctx, m, w, "writing PBF", still, [("drv_del", [X]), ("drv_file_del", [FILE])])
        ok = r.step("drv_file", FILE, NAME, cells={(NAME, 0): S(name)}) == "ret" and r.step("drv_meta", META) == "ret"
        steps = [("drv_new", X, FILE), ("drv_init", X, META)]
        for k, kind in enumerate(["node", "way", "relation", "node"]):
            ok = ok and r.make("O%d" % k, **c06.some(kind, k))
            steps.append(("drv_" + kind, X, obj("ptr.O%d" % k)))
        if not ok:
            ctx.count("undecided calls")
            continue
        for s in steps + [("drv_final", X)]:
            w.fails = ("*",)
            h.step(r, s[0], s[1:], new=s[0] == "drv_new")
            w.fails = ()
            if r.step(s[0], *s[1:]) != "ret":
                w.bad.clear()
                ctx.count("undecided calls")
                break


def shapes(ctx):
    m = c26.load()
    F, TEXT = c26.F, c26.TEXT
    for t, new in ((c26.POINT, "drv_new_point"), (c26.POLYGON, "drv_new_polygon")):
        w = c09.Io(m)
        r = Run(m, w)
        given = []

        def held(mem, auto):
            out = still(mem, ())
            for o in given:
                n = sum(1 for e in auto if e[0] == "destroy" and e[1] == o)
                k = sum(1 for e in auto if e[0] == "given" and e[1] == o)
                if n != k:
                    out.append("a shape given to the file was destroyed %d times, not %d" % (n, k))
            return out
        h = Hist(ctx, m, w, "writing shapes", held, [("drv_del", [F])])
        o, cells = c26.shape(w, "SH", t, 1 if t != c26.POINT else 0, 5 if t != c26.POINT else 1)
        o2, cells2 = c26.shape(w, "SH2", c26.ARC, 1, 2)
        given = [o, o2]
        NM = {(c26.NAME, 0): S("name"), (TEXT, 0): S("a")}
        steps = [((new, F, c26.NAME), NM), (("drv_field", F, TEXT, I(0), I(200), I(0)), NM), (("drv_shape", F, o), cells), (("drv_shape", F, o2), cells2), (("drv_int", F, I(0), I(42)), {}), (("drv_shape", F, o), cells), (("drv_close", F), {}), (("drv_close", F), {})]
        for s, cs in steps:
            if s[0] == "drv_shape":
                r.auto += (("given", s[2]),)
            w.fails = c09.SHPFAILS
            h.step(r, s[0], s[1:], cells=cs, new="new" in s[0])
            w.fails = ()
            how = r.step(*s, cells=cs)
            if how == "bad" or how is None:
                w.bad.clear()
                ctx.count("undecided calls")
                break
            if s[0] == "drv_close":
                for x in held(r.mem, r.auto):
                    ctx.require(False, "writing shapes:close", "writing shapes: after close() %s (%s)" % (x, site(m, "drv_close")))


def stores(ctx):
    m = translate("stores.cpp", also=c14.ALSO)
    c = Stores(ctx, m)
    n = c.size("anon", []) or 100
    for kind, new, size, file in [("vec", [], 3, None), ("map", [], 3, None), ("arr", [I(5)], 5, None), ("arr", [I(0)], 1, None), ("arr", [I(-1)], 1, None), ("anon", [], n, None), ("sparse", [I(1)], 1, None)] + [
            ("file", [obj("NAME:" + a), I(b)], max(1, (z or 0) // 8), z) for a, b, z in (("", 1, None), ("store", 1, 0), ("store", 0, 80), ("store", 1, 12))]:
        r = lambda *ops: c.run(kind, new, list(ops), file)
        r()
        r(("clear",))
        r(("clear",), ("clear",))
        for a in (0, size, 40 * size + 7):
            r(("set", a, 5), ("get", a))
            r(("clear",), ("get", a))
            r(("clear",), ("set", a, 5), ("get", a))
            r(("set", a, 5), ("clear",), ("get", a), ("set", a, 6), ("clear",), ("clear",))
            r(("set", a, 5), ("set", a + size, 5), ("set", 9 * a + 3 * size, 7))


class Out(Seqs):
    """the output created by the factory: deleting it is an event, and so is anything else done with it"""
    def call(self, ai, st, inst, name, args):
        b = ai.m.base(inst) or ""
        if b.endswith("Factory::create_output"):
            k = sum(1 for e in st.auto if e[0] == "created")
            n = self.event(st, ("created", obj("OUT%d" % k)))[0][2]
            return [("ret", obj("OUT%d" % k), n), ("throw", OTHER, st.copy())]
        if b.startswith(("__cxa_guard", "atexit", "__cxa_atexit")):
            return [("ret", I(0) if b == "__cxa_guard_acquire" else I(0), st)]
        if b == "" and args and args[0][0] == "s" and str(args[0][1][1] if isinstance(args[0][1], tuple) else "").startswith("OUT"):
            f = args[0]
            slot = inst.d["callee"]
            what = self.slot(ai.fn, slot)
            ends = [e for e in st.auto if e[0] == "deleted" and e[1] == f]
            if ends:
                self.wrong(inst, "uses an output that was deleted")
            n = self.event(st, ("deleted" if what in self.dtor else "called", f))[0][2]
            return [("ret", None, n)] + ([("throw", OTHER, self.event(st, ("called", f))[0][2])] if what not in self.dtor else [])
        if b.startswith("operator delete") and args[0][0] == "s" and str(args[0][1]).find("OUT") >= 0:
            self.wrong(inst, "an output is freed without being destroyed, or was deleted")
        return Seqs.call(self, ai, st, inst, name, args)

    dtor = fails = ()

    @staticmethod
    def slot(fn, o):
        """offset in the table of virtual functions of the function called"""
        i = fn.insts.get(o.get("i")) if isinstance(o, dict) else None
        if i is None or i.op != "load":
            return None
        a = i.ops[0]
        g = fn.insts.get(a.get("i")) if isinstance(a, dict) else None
        if g is not None and g.op == "getelementptr":
            return g.d.get("off")
        return 0


def handler(ctx):
    m = translate("output_handler.cpp", keep=(r"Factory::",))
    w = Out(m)
    for i in m.fn("drv_delete").calls():
        if "i" in i.d["callee"]:
            w.dtor = (Out.slot(m.fn("drv_delete"), i.d["callee"]),)

    def held(mem, auto):
        out = []
        for e in auto:
            n = sum(1 for x in auto if x == ("deleted", e[1]))
            if e[0] == "created" and n != 1:
                out.append("the output was deleted %d times" % n)
        return out
    if not w.dtor:
        ctx.count("undecided calls")
        return
    H = obj("H")
    for steps in ([], ["init"], ["init", "final"]):
        h = Hist(ctx, m, w, "Output::Handler", held, [("drv_del", [H])])
        r = Run(m, w)
        states = [((), {})]
        for s in ["new"] + steps:
            args = {"new": (H, FILE), "init": (H, META), "final": (H,)}[s]
            out = []
            for auto, mem in states:
                for how, me, au in h.outcomes("drv_" + s, args, mem, auto, s) or ():
                    h.first = "drv_" + s
                    h.end(me, au, s, [] if s == "new" and how == "throw" else None)
                    if how == "ret":
                        out.append((au, me))
            states = out
        if not states:
            ctx.count("undecided calls")


class Stores(c14.Check):
    """the part of C14 that is about who holds what"""
    class Filter:
        def __init__(self, ctx):
            self.ctx = ctx

        def require(self, ok, key, text, *a):
            return self.ctx.require(ok, key, text, *a) if key.endswith(":leak") or MINE.search(text) else True

        def count(self, what, n=1):
            self.ctx.count("store " + what if "undecided" not in what else what, n)

    def __init__(self, ctx, m):
        c14.Check.__init__(self, ctx, m)
        self.ctx = Stores.Filter(ctx)


def files(ctx):
    m = translate("osmfile.cpp")
    F, G = obj("F"), obj("G")
    enc = {}
    for name in ("name.osm", "name.osm.gz", "http://h/x", ""):
        for way in ("drv_open_in", "drv_open_out"):
            if name.startswith("http") and way == "drv_open_out":
                continue
            w = xmlw.Xml(m)
            r = xmlw.Writer(m, w)
            if r.step("drv_new", F, NAME, cells={(NAME, 0): S(name)}) != "ret" or r.step("drv_new", G, NAME, cells={(NAME, 0): S("other.osm")}) != "ret":
                ctx.count("undecided calls")
                continue
            both = [("drv_del", [F]), ("drv_del", [G])]
            # closing or dropping it in every way, every step of which can fail
            for steps in ([], ["close"], ["close", "close"], ["copy"], ["copy", "close"], ["assign F"], ["assign G"], ["open"], ["close", "open"], ["copy", "open copy"], ["self"]):
                h = Hist(ctx, m, w, "OSMFile", still, both)
                q = r.copy()
                for s in [("open")] + steps:
                    call = {"open": (way, F), "close": ("drv_close", F), "copy": ("drv_copy", G, F), "assign F": ("drv_assign", F, G), "assign G": ("drv_assign", G, F), "self": ("drv_assign", F, F), "open copy": (way, G)}[s]
                    if s == "copy" and q.step("drv_del", G) != "ret":
                        break
                    w.fails = ("*",)
                    h.step(q, call[0], call[1:])
                    w.fails = ()
                    if q.step(*call) != "ret":
                        ctx.count("undecided calls")
                        break


def run(ctx):
    ctx.rules = ["held when the owner is gone", "given back twice or without being held", "used after it was given back", "obtained again while still held"]
    ctx.assumptions = ["one failure at a time in the writers", "what the containers and smart pointers of the standard library and boost own is freed by them"]
    reading(ctx)
    xml(ctx)
    pbf(ctx)
    shapes(ctx)
    stores(ctx)
    files(ctx)
    handler(ctx)
    ctx.at_least("ends examined", 50)
    ctx.at_least("histories", 100)
    ctx.at_least("store sequences", 50)
