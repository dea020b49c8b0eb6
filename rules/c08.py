"""Both readers are interpreted abstractly over every path, with every call by which input is obtained or decoded returning each
of its failures: once one has happened, nothing more is read or delivered and the read ends with an exception. Blocks and
documents are cut at every position a read can end."""
from ir import translate, AnalysisBroken
from absint import Hooks, AbsInt, St, I, OTHER, path_lines
from scenario import obj
from rules.handlers import site
from rules.protocol import STOP
from rules.c13 import cell_of
from rules.c12 import Files
from rules.expat import Expat

F, PROBE, PARSER, ERRNO = obj("F"), obj("PROBE"), obj("parser"), obj("errno")
SAME, SHORT, RAW, TYPE = obj("len.same"), obj("len.short"), obj("rawsize"), obj("blobtype")
PID = 4711
FEATS = ((), ("OsmSchema-V0.6", "DenseNodes"), ("OsmSchema-V0.6", "HistoricalInformation"), ("HistoricalInformation", "DenseNodes"), ("NoSuchFeature",), ("OsmSchema-V0.6", "NoSuchFeature"), ("HistoricalInformation", "OsmSchema-V0.6", "LocationsOnWays"),
         ("DenseNodes", "NoSuchFeature"), ("NoSuchFeature", "DenseNodes"), ("DenseNodes", "HistoricalInformation"), ("", ))


class Dam(Hooks):
    def __init__(self, ctx, where, ftype, pbf):
        self.ctx, self.where, self.ftype, self.pbf = ctx, where, ftype, pbf
        self.sites, self.kinds, self.unclear = set(), {}, set()

    # ---- state: auto = sorted ((key, value), ...) -------------------------
    @staticmethod
    def get(st, k, d=None):
        return dict(st.auto).get(k, d)

    @staticmethod
    def put(st, **kw):
        n = st.copy()
        d = dict(st.auto)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        n.auto = tuple(sorted(d.items(), key=repr))
        return n

    def over(self, st):
        """a handler has ended the read: what happens to the input no longer matters"""
        return self.get(st, "stop")

    def fail(self, ai, st, inst, what, mem={}):
        n = self.put(st, fail=self.get(st, "fail") or what) if not self.over(st) else st.copy()
        self.kinds.setdefault(what, ai.m.loc(inst))
        n.mem[(ERRNO, 0)] = I(5)
        n.mem.update(mem)
        return n

    def on(self, ai, st, inst, what):
        """something that must not happen after a failure"""
        f = self.get(st, "fail")
        if f and not self.over(st):
            self.ctx.require(False, "%s:%s" % (self.where, f), "%s: %s although %s (%s)" % (self.where, what, f, ai.m.loc(inst)), ["path: " + " > ".join(path_lines(ai, st))])

    # ---- model -----------------------------------------------------------
    def other_matches(self, ti):
        return False if ti == STOP else None

    def fold(self, ai, inst, op, n):
        return op not in ("add", "sub", "mul") or 0 <= n <= 4

    def order(self, ai, st, pred, a, b):
        for x, y, sw in ((a, b, False), (b, a, True)):
            if y == I(0) and pred in ("eq", "ne") and (x in (PARSER, TYPE) or self.known(x) is not None):
                return pred == "ne"
            if x in (SAME, SHORT) and y[0] != "i":
                p = pred.lstrip("us") if pred not in ("eq", "ne") else pred
                if x == SAME:
                    return p in ("eq", "le", "ge")
                if sw:
                    p = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p)
                return p in ("ne", "lt", "le")
        return None

    def arith(self, ai, st, inst, op, a, b):
        if b is None and a in (SAME, SHORT):
            return a
        return None

    def may_throw(self, ai, inst, name):
        return False

    def no_havoc(self, ai, st, addr, inst):
        n = ai.m.base(inst) or ""
        return n.startswith(("XML_", "__cxa", "std::runtime_error", "Probe::", "OSMPBF::", "google::", "Osmium::OSM::"))

    def text(self, ai, inst, k, args):
        c = ai.m.cstr(inst.args[k]) if k < len(inst.args) else None
        return c if c is not None or k >= len(args) else Expat.cstr_val(ai, args[k])

    def known(self, v):
        """text a string is known to have"""
        if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "feature":
            return v[1][1]
        if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "chr":
            return v[1][1]
        return None

    def call(self, ai, st, inst, name, args):
        b = name or ""
        c = lambda k: ai.const_of(st, args[k]) if k < len(args) else None
        short = b.split("::")[-1].replace("[abi:cxx11]", "")
        if b == "__errno_location":
            return [("ret", ERRNO, st)]
        if b.startswith("Probe::"):
            self.on(ai, st, inst, "%s is called" % b[7:])
            n = self.put(st, stop=True)
            return [("ret", None, st)] + ([("throw", STOP, n)] if b != "Probe::final" else [])
        if b in ("open", "open64"):
            self.sites.add((ai.fn.name, inst.id))
            return [("ret", I(17), st), ("ret", I(-1), self.fail(ai, st, inst, "the file cannot be opened"))]
        if b in ("pipe", "pipe2"):
            a = ai.addr(args[0])
            n = st.copy()
            if a is None:
                return None
            ai.clear(n, a[0], a[1], a[1] + 8)
            n.mem[a], n.mem[(a[0], a[1] + 4)] = I(40), I(41)
            return [("ret", I(0), n), ("ret", I(-1), self.fail(ai, st, inst, "no pipe can be created"))]
        if b in ("fork", "vfork"):
            return [("ret", I(PID), self.put(st, helper=True)), ("ret", I(-1), self.fail(ai, st, inst, "no process can be created"))]
        if b in ("waitpid", "wait4"):
            a = ai.addr(args[1])
            out = []
            for what, ret, status in ((None, PID, 0), ("the helper ended with status 1", PID, 0x100), ("the helper was killed", PID, 9), ("the helper dumped core", PID, 0x8b), ("the helper could not be started", PID, 0x7f00), ("waiting for the helper failed", -1, None)):
                n = self.put(st, helper=None) if what is None else self.fail(ai, self.put(st, helper=None), inst, what)
                if a and status is not None:
                    ai.clear(n, a[0], a[1], a[1] + 4)
                    n.mem[a] = I(status)
                out.append(("ret", I(ret), n))
            self.sites.add((ai.fn.name, inst.id))
            return out
        if b == "close":
            return [("ret", I(0), st)]
        if b == "read":
            return self.read(ai, st, inst, args)
        if b.startswith("XML_"):
            return self.xml(ai, st, inst, b, args)
        if b in ("strcmp",):
            x, y = [self.known(v) or self.text(ai, inst, k, args) for k, v in enumerate(args[:2])]
            if x is not None and y is not None:
                return [("ret", I((x > y) - (x < y)), st)]
        if "Parse" in short and "::" in b and ("google::" in b or "OSMPBF::" in b):
            return self.message(ai, st, inst)
        if b == "uncompress" or b == "uncompress2":
            self.sites.add((ai.fn.name, inst.id))
            self.on(ai, st, inst, "data is decompressed")
            a = ai.addr(args[1])
            if a is None:
                self.unclear.add("uncompress")
                return None
            ok, cut = st.copy(), self.fail(ai, st, inst, "the data has another size than it says")
            ok.mem[a], cut.mem[a] = SAME, SHORT
            return [("ret", I(0), ok), ("ret", I(0), cut)] + [("ret", I(v), self.fail(ai, st, inst, "the data cannot be decompressed", {a: x})) for v in (-3, -4, -5) for x in (SAME, SHORT)]
        if b.startswith("OSMPBF::"):
            r = self.accessor(ai, st, inst, b.split("::")[-2], short, args)
            if r is not None:
                return r
        if "operator==" in b or "operator!=" in b or short in ("compare",):
            v = self.compare(ai, st, inst, args)
            if v is not None:
                return [("ret", I(int(not v)) if short == "compare" or "!=" in b else I(int(v)), st)]
        return None

    def compare(self, ai, st, inst, args):
        x, y = args[0], self.text(ai, inst, 1, args)
        if y is None:
            return None
        if x == TYPE:
            t = self.get(st, "type")
            return None if t is None else t == y
        k = self.known(x)
        return None if k is None else k == y

    def accessor(self, ai, st, inst, cls, f, args):
        if cls == "BlobHeader" and f == "type":
            return [("ret", TYPE, st)]
        if cls == "Blob":
            kind = self.get(st, "kind")
            if f.startswith("has_") and kind is not None:
                if f == "has_raw_size":
                    return [("ret", I(int(kind != "raw")), st)]
                return [("ret", I(int(f == "has_" + kind)), st)]
            if f == "raw_size":
                return [("ret", RAW, st)]
        if cls == "HeaderBlock" and self.get(st, "feats") is not None:
            l = self.get(st, "feats")
            if f == "required_features_size":
                return [("ret", I(len(l)), st)]
            if f == "required_features":
                n = ai.const_of(st, args[1]) if len(args) > 1 else None
                if n is not None and 0 <= n < len(l):
                    return [("ret", ("s", ("feature", l[n])), st)]
        # what a block contains decides only which callbacks follow: one node is followed
        if f.endswith("_size"):
            return [("ret", I(int(f in ("primitivegroup_size", "nodes_size"))), st)]
        if f.startswith("has_"):
            return [("ret", I(0), st)]
        return None

    def read(self, ai, st, inst, args):
        self.sites.add((ai.fn.name, inst.id))
        self.on(ai, st, inst, "reading goes on")
        out = [("ret", I(-1), self.fail(ai, st, inst, "reading fails"))]
        if not self.pbf:
            return out + [("ret", I(0), self.put(st, eof=True)), ("ret", I(100), st.copy())]
        if self.get(st, "mid"):
            out.append(("ret", I(0), self.fail(ai, st, inst, "the input ends inside a block")))
        else:
            out.append(("ret", I(0), self.put(st, eof=True)))
        n = ai.const_of(st, args[2])
        s = self.put(st, mid=True) if self.get(st, "mid") else self.put(st, mid=True, parsed=None, type=None, kind=None, feats=None)
        if n is not None and 0 < n <= 16:
            return out + [("ret", I(k), s.copy()) for k in sorted({1, n})]
        v = ai.sy(inst)
        ai.setv(s, inst, v)
        ai.refine(s, v, "sge", 1)
        return out + [("ret", v, s)]

    def message(self, ai, st, inst):
        """header, blob and contents are parsed in this order"""
        self.sites.add((ai.fn.name, inst.id))
        self.on(ai, st, inst, "a message is parsed")
        k = self.get(st, "parsed", 0)
        out = [("ret", I(0), self.fail(ai, st, inst, "%s cannot be parsed" % ("the header of a block", "a blob", "the contents of a block")[min(k, 2)]))]
        if k == 1:
            # a message that cannot be parsed may have been filled in all the same
            out = [(h, v, self.put(n, kind=kind, parsed=2)) for h, v, n in out for kind in ("raw", "zlib_data")]
        if k == 0:
            return out + [("ret", I(1), self.put(st, parsed=1, type=t)) for t in ("OSMHeader", "OSMData", "Other")]
        if k == 1:
            for kind in ("raw", "zlib_data", "lzma_data", "none"):
                s = self.put(st, parsed=2, kind=kind, mid=None)
                if kind in ("lzma_data", "none") and self.get(st, "type") != "Other":
                    s = self.fail(ai, s, inst, "the compression is not supported" if kind == "lzma_data" else "the blob has no data")
                out.append(("ret", I(1), s))
            return out
        if self.get(st, "type") == "OSMHeader":
            for l in FEATS:
                s = self.put(st, parsed=3, feats=l)
                if set(l) - {"OsmSchema-V0.6", "DenseNodes", "HistoricalInformation"}:
                    s = self.fail(ai, s, inst, "the file needs a feature that is not known")
                elif "HistoricalInformation" in l and self.ftype == "OSM":
                    s = self.fail(ai, s, inst, "the file has history although none is expected")
                elif "HistoricalInformation" not in l and self.ftype == "History":
                    s = self.fail(ai, s, inst, "the file has no history although it is expected")
                out.append(("ret", I(1), s))
            return out
        return out + [("ret", I(1), self.put(st, parsed=3))]

    handlers = None

    def xml(self, ai, st, inst, b, args):
        if b.startswith("XML_ParserCreate"):
            self.sites.add((ai.fn.name, inst.id))
            return [("ret", PARSER, st), ("ret", I(0), self.fail(ai, st, inst, "no parser can be created"))]
        if b == "XML_SetUserData":
            self.data = args[1]
            return [("ret", None, st)]
        if b in ("XML_SetElementHandler", "XML_SetStartElementHandler"):
            self.handlers = args[1]
            return [("ret", None, st)]
        if b == "XML_GetBuffer":
            s = st.copy()
            v = obj("xmlbuffer")
            return [("ret", v, s), ("ret", I(0), self.fail(ai, st, inst, "there is no memory for the input"))]
        if b in ("XML_ParseBuffer", "XML_Parse"):
            self.sites.add((ai.fn.name, inst.id))
            self.on(ai, st, inst, "data is parsed")
            last = ai.const_of(st, args[-1])
            out = [("ret", I(0), self.fail(ai, st, inst, "the document is damaged or ends too early"))]
            if last is None:
                self.unclear.add("the last argument of " + b)
                last = 1
            out.append(("ret", I(1), self.put(st, complete=True) if last else st.copy()))
            out.append(("throw", STOP, self.put(st, stop=True)))
            return out + self.root(ai, st, inst)
        v = None
        if "ty" in inst.d:
            v = ai.sy(inst)
            ai.setv(st, inst, v)
        return [("ret", v, st)]

    def root(self, ai, st, inst):
        """the root element says another version"""
        fn = self.handlers[1] if self.handlers and self.handlers[0] == "fn" else None
        if fn not in ai.m.fns:
            self.unclear.add("the handler of start tags")
            return []
        out = []
        ch = lambda t: ("s", ("chr", t, 0))
        for root in ("osm", "osmChange"):
            for attrs in (("version", "0.5"), ("generator", "x", "version", "0.7"), ("version", "0.60", "generator", "x"), ("version", "0.6", "generator", "x")):
                s = self.put(st) if "0.6" in attrs else self.fail(ai, self.put(st), inst, "the document has version %s" % attrs[attrs.index("version") + 1])
                a = obj("attrs")
                for k, t in enumerate(attrs):
                    s.mem[(a, 8 * k)] = ch(t)
                s.mem[(a, 8 * len(attrs))] = I(0)
                was, ai.fold_small = ai.fold_small, True
                r = ai.subcall(s, fn, [self.data, ch(root), a], "root")
                ai.fold_small = was
                if "0.6" in attrs:
                    self.good += any(how == "ret" for how, k, e in r)
                    continue
                for how, k, e in r:
                    self.ctx.count("root elements")
                    e.mem = {q: v for q, v in e.mem.items() if q[0] != a}
                    if how == "throw":
                        out.append(("throw", k, e))
                    else:
                        self.on(ai, e, inst, "the start tag of the root element is accepted")
        return out

    good = 0

    def exit(self, ai, st, how, kind, inst):
        if ai.name is not None or how not in ("ret", "throw"):
            return
        self.ctx.count("ends examined")
        if how == "ret" and not self.over(st):
            f = self.get(st, "fail")
            p = ["path: " + " > ".join(path_lines(ai, st))]
            self.ctx.require(not f, "%s:%s" % (self.where, f), "%s ends normally although %s (%s)" % (self.where, f, self.kinds.get(f)), p)
            self.ctx.count("normal ends examined")
            if not f and not self.unclear:
                self.ctx.require(bool(self.get(st, "eof") and (self.pbf or self.get(st, "complete"))), "%s:end" % self.where, "%s ends normally although it is not known that the input is complete" % self.where, p)
                self.ctx.require(not self.get(st, "helper"), "%s:helper" % self.where, "%s ends normally although the helper was not waited for" % self.where, p)
        elif how == "ret":
            self.ctx.require(True, "", "")
        else:
            self.ctx.require(True, "", "")


def types(m):
    """the predefined file types"""
    out, mem = {}, {}
    for t in ("OSM", "History", "Change"):
        w = Files(m)
        w.execs = set()
        ai = AbsInt(m, m.fn("drv_type_" + t), w, name="t", args=[])
        s = St()
        s.mem, s.auto = dict(mem), ()
        r = {(e.env.get("ret"), frozenset((k, v) for k, v in e.mem.items() if k[0][0] == "glob")) for how, _, e, _ in ai.run(s) if how == "ret"}
        if len(r) != 1:
            raise AnalysisBroken("the predefined file types cannot be interpreted")
        (out[t], g), = r
        mem.update(dict(g))
    return out, mem


def run(ctx):
    ctx.rules = ["a failure after which reading, decoding or delivering goes on, or the read ends normally", "a normal end that is neither at a block boundary nor after a complete document", "a helper that was not waited for"]
    ctx.assumptions = ["the XML library reports every document that is damaged or incomplete when it is told that the input has ended", "protobuf reports every message that cannot be parsed; zlib reports damaged data", "XML files are not checked against the expected type"]
    m = translate("input.cpp", keep=[r"^Osmium::OSM::"])
    ts, glob = types(m)
    o = cell_of(m, m.fn("drv_get_type"))
    if o is None:
        raise AnalysisBroken("the type of a file cannot be found")
    for where, fn, ftypes in (("reading PBF", "drv_pbf", ("OSM", "History", "Change")), ("reading XML", "drv_xml", ("OSM",))):
        for t in ftypes:
            h = Dam(ctx, where, t, fn == "drv_pbf")
            ai = AbsInt(m, m.fn(fn), h, args=[F, PROBE])
            s = St()
            s.mem = dict(glob)
            s.mem[(F, o)] = ts[t]
            s.auto = ()
            ai.run(s)
            for u in h.unclear:
                ctx.count("undecided: " + u)
            if fn == "drv_xml" and not h.good:
                ctx.count("undecided: root elements")
            ctx.count("abstract states", ai.nstates)
            ctx.count("fallible call sites", len(h.sites))
            ctx.count("kinds of damage", len(h.kinds))
    ctx.at_least("fallible call sites", 6)
    ctx.at_least("kinds of damage", 10)
    ctx.at_least("normal ends examined", 4)
