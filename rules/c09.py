"""The writers of XML, PBF and shapefiles are interpreted abstractly over models of the libraries and of the operating system in
which every call that can fail does so once: a call of the writer during which something failed has to end with an exception,
and one that returns has to have written everything. Nothing is executed."""
from absint import I
from scenario import obj
from strings import params
from ir import AnalysisBroken, Undecided
from rules.handlers import site
from rules.lists import run_fn
from rules import xmlw, pbfw, c06, c26
from rules.xmlw import META, X
from rules.c04 import tree, Bad as BadDoc, Unknown as UnknownDoc

HARMLESS = ("deflateEnd",)


def outcomes(r, fn, args, cells=None):
    mem = dict(r.mem)
    mem.update(cells or {})
    try:
        l = run_fn(r.m, r.w, fn, list(args), mem, r.auto)
    except (Undecided, AnalysisBroken):
        return None
    if r.w.bad:
        # use of what does not exist: judged by C04, C06, C10 and C26, unless it is what follows a failure
        w = list(r.w.bad.items())
        r.w.bad.clear()
        f, r.w.fails = r.w.fails, ()
        s, r.w.shorts = getattr(r.w, "shorts", False), False
        try:
            run_fn(r.m, r.w, fn, list(args), mem, r.auto)
        except (Undecided, AnalysisBroken):
            r.w.bad["?"] = None
        r.w.fails, r.w.shorts = f, s
        if not r.w.bad and f:
            return [("goes on", None, "%s at %s" % (w[0][1], w[0][0]), None)]
        r.w.bad.clear()
        return None
    return l


def written(auto, close):
    """is what is closed the file that was written, not the other end of a pipe?"""
    return any(e[0] in ("buffer", "write") and e[1] == close[1] for e in auto)


class Judge:
    def __init__(self, ctx, m, kind):
        self.ctx, self.m, self.kind = ctx, m, kind

    def step(self, r, fn, *args, cells=None, good=None):
        """all outcomes of one call; good(state) says what is wrong with a successful one, or None"""
        ctx = self.ctx
        n = len(r.auto)
        l = outcomes(r, fn, args, cells)
        if l is None:
            ctx.count("undecided calls")
            return
        at = site(self.m, fn)
        for how, v, kind, st in l:
            if how == "goes on":
                ctx.require(False, "%s:goes on" % self.kind, "%s: %s goes on after a failure: %s (%s)" % (self.kind, fn[4:], kind, at))
                continue
            new = st.auto[n:]
            f = [e for k, e in enumerate(new) if e[0] == "fail" and e[1] not in HARMLESS and (e[1] != "close" or written(st.auto, new[k - 1]))]
            ctx.count("outcomes examined")
            if f:
                ctx.count("failures examined")
                ctx.require(how == "throw", "%s:%s" % (self.kind, f[0][1]), "%s: %s returns although %s failed (%s)" % (self.kind, fn[4:], f[0][1], f[0][2] if len(f[0]) > 2 else at))
            elif how == "ret" and good is not None:
                try:
                    e = good(st)
                except (UnknownDoc,):
                    ctx.count("undecided documents")
                    continue
                ctx.require(e is None, "%s:complete" % self.kind, "%s: %s returns although %s (%s)" % (self.kind, fn[4:], e, at))
            elif how == "throw" and not any(e[0] == "fail" for e in new) and good is not None:
                ctx.require(False, "%s:throws" % self.kind, "%s: %s throws although nothing failed%s (%s)" % (self.kind, fn[4:], ", but one write was short" if any(e[0] == "short" for e in new) else "", at))

    def advance(self, r, fn, *args, cells=None):
        """one call without failures"""
        f, r.w.fails = r.w.fails, ()
        s, r.w.shorts = getattr(r.w, "shorts", False), False
        how = r.step(fn, *args, cells=cells)
        r.w.fails, r.w.shorts = f, s
        if how == "bad":
            r.w.bad.clear()
        if how != "ret":
            self.ctx.count("undecided calls")
        return how == "ret"


def closed(st, m, what):
    """is everything the writer opened closed, and every helper waited for?"""
    fds = [k[1] for k, v in st.mem.items() if k[0] == obj("fd") and v == I(1)]
    if fds:
        return "the file is not closed"
    if any(e[0] == "fork" for e in st.auto) and not any(e[0] == "wait" for e in st.auto):
        return "the helper process is not waited for"
    return None


def xml(ctx):
    m = xmlw.load()
    j = Judge(ctx, m, "XML")
    O = dict(id=5, version=3, changeset=7, timestamp=100, uid=3, user="joe")
    objs = [dict(kind="node", pos=(1, 2), tags=[("k", "v")], **O), dict(kind="way", nodes=[5], tags=[("k", "v")], **O), dict(kind="relation", members=[("n", 5, "r")], tags=[("k", "v")], **O)]

    def end(st):
        try:
            tree(st.auto)
        except BadDoc as e:
            return str(e)
        flush = [e for e in st.auto if e[0] in ("flush", "start", "end", "enddoc", "attr", "string", "element")]
        if not flush or flush[-1][0] != "flush" or st.mem.get((obj("xw0"), "left")) != I(0):
            return "it is not known whether everything was written"
        return closed(st, m, "XML")
    for name in ("name.osm", "name.osh", "name.osc", "name.osm.gz", "name.osc.bz2", ""):
        w = xmlw.Xml(m)
        w.fails = ("*",)
        r = xmlw.Writer(m, w)
        if not j.advance(r, "drv_file", xmlw.FILE, xmlw.NAME, cells={(xmlw.NAME, 0): xmlw.S(name)}) or not j.advance(r, "drv_meta", META) or not j.advance(r, "drv_extend", META, I(1), I(2)):
            continue
        steps = [("drv_new", X, xmlw.FILE), ("drv_init", X, META)]
        ok = True
        for k, o in enumerate(objs):
            f, w.fails = w.fails, ()
            ok = ok and r.make("O%d" % k, **o)
            w.fails = f
            steps.append(("drv_" + o["kind"], X, obj("ptr.O%d" % k)))
        if not ok:
            ctx.count("undecided calls")
            continue
        for s in steps + [("drv_final", X)]:
            j.step(r, *s, good=end if s[0] == "drv_final" else None)
            if not j.advance(r, *s):
                break


def pbf(ctx):
    m = pbfw.load()
    j = Judge(ctx, m, "PBF")

    def blocks(st, n=None):
        try:
            l = pbfw.blobs(w, st.auto)
        except pbfw.Bad as e:
            return str(e)
        if n is not None and len(l) < n:
            return "%d blocks were written, not %d" % (len(l), n)
        return None
    for ftype, zip_, name in (("osm", 0, "name.osm.pbf"), ("osm", 1, "name.osm.pbf"), ("osh", 1, "name.osh.pbf"), ("osm", 1, "")):
        w = pbfw.Pbf(m)
        w.fails, w.shorts, w.msgsize = ("*",), True, 1 << 20
        r = pbfw.PbfWriter(m, w)
        if not j.advance(r, "drv_file", xmlw.FILE, xmlw.NAME, cells={(xmlw.NAME, 0): xmlw.S(name)}) or not j.advance(r, "drv_meta", META):
            continue
        j.step(r, "drv_new", X, xmlw.FILE)
        if not j.advance(r, "drv_new", X, xmlw.FILE) or not j.advance(r, "drv_compression", X, I(zip_)):
            continue
        # each call writes at most one block; a block is written when it is full, and at the end
        kinds = ["node", "way", "relation"] + ["way", "relation"] * 16
        done = 0

        def make(k, kind):
            f, w.fails = w.fails, ()
            ok = r.make("O%d" % k, **c06.some(kind, k))
            w.fails = f
            return ok
        steps = [("drv_init", X, META)] + ["O"] * len(kinds) + [("drv_final", X)]
        k = 0
        for s in steps:
            if s == "O":
                if not make(k, kinds[k]):
                    ctx.count("undecided calls")
                    break
                s = ("drv_" + kinds[k], X, obj("ptr.O%d" % k))
                k += 1
            n = len([e for e in r.auto if e[0] == "write"])
            q = r.copy()
            if not j.advance(q, *s):
                break
            wrote = len([e for e in q.auto if e[0] == "write"]) > n
            if wrote or s[0] == "drv_final":
                done += 1
                last = s[0] == "drv_final"
                j.step(r, *s, good=lambda st: blocks(st, 3 if last else done) or (closed(st, m, "PBF") if last else None))
                # a block that is too large
                for size, bad in ((pbfw.MAXBLOCK + 1, True), (1 << 31, True), ((1 << 32) + 5, True)):
                    b = r.copy()
                    w.blocksize, w.fails, w.shorts = size, (), False
                    l = outcomes(b, s[0], s[1:])
                    w.blocksize, w.fails, w.shorts = None, ("*",), True
                    for how, v, kind, st in l or ():
                        if len([e for e in st.auto if e[0] == "write"]) > n or how == "throw":
                            ctx.count("large blocks")
                            ctx.require(how == "throw", "PBF:large", "PBF: a block of %d bytes is written, readers accept %d (%s)" % (size, pbfw.MAXBLOCK, site(m, s[0])))
            r = q
        ctx.count("PBF blocks", done)


SHPFAILS = ("SHPCreate", "DBFCreate", "DBFAddField", "SHPWriteObject", "all") + tuple("DBFWrite%sAttribute" % k for k in ("String", "Integer", "Double", "Logical", "NULL"))


class Io(c26.Shp):
    """one text file at a time, whose state is remembered"""
    def fail(self, st, what, where=None):
        return c26.Shp.fail(self, st, what)

    def streams(self, ai, st, inst, base, full, args):
        k = (obj("ofstream"), "bad")
        f = base.split("::")[-1]

        def may(st, v, what):
            s = st.copy()
            out = [("ret", v, s)]
            if "all" in self.fails and not any(x[0] == "fail" for x in st.auto or ()):
                b = self.ev(st, "fail", what, ai.m.loc(inst))
                b.mem[k] = I(1)
                out.append(("ret", v, b))
            return out
        if "std::basic_ofstream" in base or base.startswith("std::basic_ios::"):
            if f == "open" or f == "basic_ofstream" and len(args) > 2:
                s = st.copy()
                s.mem[k] = I(0)         # a file that is opened starts without errors
                return may(s, None, "open of a text file")
            if f in ("basic_ofstream", "~basic_ofstream"):
                return [("ret", None, st)]
            if f in ("close", "flush"):
                return may(st, args[0] if "ty" in inst.d else None, f + " of a text file")
            v = st.mem.get(k, I(0))[1]
            if f in ("fail", "bad", "operator!"):
                return [("ret", I(int(v)), st)]
            if f in ("good", "operator bool"):
                return [("ret", I(int(not v)), st)]
            if f == "rdstate":
                return [("ret", I(4 * v), st)]
        if "operator<<" in base and args and self.text(ai, st, args[0]) is None:
            return may(st, args[0], "write to a text file")
        return c26.Shp.streams(self, ai, st, inst, base, full, args)


def shapes(ctx):
    m = c26.load()
    j = Judge(ctx, m, "shapefile")
    F, NAME, TEXT = c26.F, c26.NAME, c26.TEXT
    w = Io(m)
    from rules.steps import Run
    for t, new in ((c26.POINT, "drv_new_point"), (c26.POLYGON, "drv_new")):
        w.fails = SHPFAILS
        r = Run(m, w)
        o, cells = c26.shape(w, "SH", t, 1 if t != c26.POINT else 0, 5 if t != c26.POINT else 1)
        first = (new, F, NAME) if new != "drv_new" else (new, F, NAME, I(t))
        steps = [(first, {(NAME, 0): c26.S("name")}), (("drv_field", F, TEXT, I(0), I(200), I(0)), {(TEXT, 0): c26.S("a")}), (("drv_field", F, TEXT, I(2), I(250), I(3)), {(TEXT, 0): c26.S("b")})] + [(("drv_shape", F, o), cells)] * 3
        c = ("s", ("chr", "xyz", 0))
        ok = True
        snaps = []
        for s, cs in steps:
            j.step(r, *s, cells=cs)
            ok = ok and j.advance(r, *s, cells=cs)
            snaps.append(c26.counters(r.mem))
            if not ok:
                break
        if not ok:
            continue
        T = {(TEXT, 0): c26.S("x" * 300)}
        for s in (("drv_bool", F, I(0), I(1)), ("drv_int", F, I(0), I(42)), ("drv_double", F, I(1), ("s", ("in", "d"))), ("drv_string", F, I(0), TEXT), ("drv_chars", F, I(0), c), ("drv_null", F, I(1)), ("drv_cut", F, I(0), ("s", ("chr", "q" * 300, 0))),
                  ("drv_cut", F, I(0), c), ("drv_cut_string", F, I(0), TEXT)):
            j.step(r, *s, cells=T)
        # the start of a new file
        d = {k: snaps[-1][k] - snaps[-2].get(k, 0) for k in snaps[-1]}
        if d != {k: snaps[-2][k] - snaps[-3].get(k, 0) for k in snaps[-2]}:
            ctx.count("undecided calls")
            continue
        shp = [x for x in r.auto if x[0] == "shp"][-1][1]
        have = r.mem[(shp, "records")][1]
        size, rl = c26.size_of(t, 1, 5 if t != c26.POINT else 1), 451
        n = min((c26.LIMIT - 100) // size, (c26.LIMIT - 33 - 64) // rl) - have - 2
        for k, x in d.items():
            if x:
                r.mem[k] = I(r.mem[k][1] + n * x)
        for k in range(6):
            before = len([x for x in r.auto if x[0] == "shp"])
            j.step(r, "drv_shape", F, o, cells=cells)
            if not j.advance(r, "drv_shape", F, o, cells=cells):
                break
            if len([x for x in r.auto if x[0] == "shp"]) > before:
                ctx.count("new files")


def run(ctx):
    ctx.rules = ["a call of a writer during which a call of the system or of a library failed ends with an exception", "a call that returns has written every byte, also after a short write", "a block of more than 33554432 bytes is refused"]
    ctx.assumptions = ["one failure at a time", "the shape library does not report failures of closing"]
    xml(ctx)
    pbf(ctx)
    shapes(ctx)
    ctx.at_least("failures examined", 100)
    ctx.at_least("large blocks", 3)
    ctx.at_least("new files", 1)
