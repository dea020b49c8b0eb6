"""The naming functions of a file are interpreted abstractly over a domain of constant strings, for a set of file names that
covers every suffix, documented name and position of separators and dots: the type and encoding selected, the names built and
the way a name is opened are compared with the documentation. The program is not run."""
from ir import translate, AnalysisBroken
from absint import I
from scenario import play, obj
from strings import Strings, S
from rules.handlers import site
import itertools

F, N, R = obj("F"), obj("N"), obj("R")
TYPES = {"OSM": "osm", "History": "osh", "Change": "osc"}
ENCS = {"PBF": ".pbf", "XML": "", "XMLgz": ".gz", "XMLbz2": ".bz2"}


class Files(Strings):
    """system calls are events"""
    def call(self, ai, st, inst, name, args):
        b = ai.m.base(inst) or ""
        if b in ("open", "open64"):
            return [("ret", I(17), self.event(st, ("sys", "open", self.text(ai, st, args[0])))[0][2])]
        if b == "pipe":
            n = st.copy()
            a = ai.addr(args[0])
            n.mem[a], n.mem[(a[0], a[1] + 4)] = I(40), I(41)
            return [("ret", I(0), n)]
        if b == "fork":
            return [("ret", I(0), self.event(st, ("sys", "child"))[0][2]), ("ret", I(4711), self.event(st, ("sys", "parent"))[0][2])]
        if b.startswith("exec"):
            self.event(st, ("sys",))
            self.execs.add(tuple(self.text(ai, st, a) if a != I(0) else None for a in args))
            return [("stop", None, st)]
        if b == "_exit":
            return [("stop", None, st)]
        if b in ("close", "dup2", "fcntl", "fcntl64", "waitpid"):
            return [("ret", I(int(self.num(ai, st, args[0]) or 0) if b == "dup2" else 0), st)]
        return Strings.call(self, ai, st, inst, name, args)


class Names:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        w = Files(m)
        w.execs = set()
        calls = [("drv_type_" + t, [], {}) for t in TYPES] + [("drv_enc_" + e, [], {}) for e in ENCS]
        st = play(m, w, {}, calls)
        if len(st) != 1:
            raise AnalysisBroken("the predefined types and encodings cannot be interpreted")
        self.mem = {k: v for k, v in st[0].mem.items() if k[0][0] == "glob"}
        self.types, self.encs = {}, {}
        for fn, tab in ([("drv_type_" + t, (self.types, t)) for t in TYPES] + [("drv_enc_" + e, (self.encs, e)) for e in ENCS]):
            w = Files(m)
            w.execs = set()
            v = self.value(fn, [], self.mem)
            if v is None or v[0] != "p" and v[0] != "s":
                raise AnalysisBroken("%s does not return a predefined object" % fn)
            tab[0][v] = tab[1]
        self.texts = lambda v: v

    def value(self, fn, args, mem, world=None):
        """the single value a function returns, or None"""
        from absint import AbsInt, St
        w = world or Files(self.m)
        if not hasattr(w, "execs"):
            w.execs = set()
        ai = AbsInt(self.m, self.m.fn(fn), w, name="v", args=args)
        s = St()
        s.mem, s.auto = dict(mem), ()
        out = [e.env.get("ret") for how, _, e, _ in ai.run(s) if how == "ret"]
        return out[0] if len(set(out)) == 1 else None

    def play(self, calls, world=None):
        w = world or Files(self.m)
        w.execs = set()
        self.world = w
        return play(self.m, w, self.mem, calls)

    def ends(self, first, last):
        """how the last call ends: subset of {"ret", "throw"}"""
        from absint import AbsInt
        out = set()
        for s in self.play([first]):
            s.mem.update(last[2])
            w = Files(self.m)
            w.execs = set()
            ai = AbsInt(self.m, self.m.fn(last[0]), w, name="e", args=last[1])
            out |= {how for how, _, _, _ in ai.run(s)}
        return out & {"ret", "throw"}

    def new(self, name):
        return ("drv_new", [F, N], {(N, 0): S(name)})

    def selected(self, s):
        """(type, encoding) of the file in state s"""
        t, e = self.value("drv_get_type", [F], s.mem), self.value("drv_get_enc", [F], s.mem)
        return self.types.get(t), self.encs.get(e)

    def name(self, s):
        v = self.value("drv_get_name", [F], s.mem)
        if v is None:
            return None
        c = s.mem.get((v[1], v[2]) if v[0] == "p" else (v, 0))
        return c[1][1] if c is not None and c[0] == "s" and isinstance(c[1], tuple) and c[1][0] == "str" else None

    def check(self, states, got, want, key, what, fn):
        self.ctx.count("names examined")
        if not states:
            self.ctx.violation(key, "%s ends with an error (%s)" % (what, site(self.m, fn)))
        seen = {got(s) for s in states}
        for g in seen:
            if len(seen) > 1 or g is None or isinstance(g, tuple) and None in g:
                self.ctx.count("undecided names")
                continue
            self.ctx.require(g == want, key, "%s selects %s, not %s (%s)" % (what, g if isinstance(g, str) else "/".join(g), want if isinstance(want, str) else "/".join(want), site(self.m, fn)))


def run(ctx):
    ctx.rules = ["a default file name selects another type or encoding", "a documented name selects something else, an unknown name is accepted", "something before the last path separator decides", "standard input and output or URLs are not recognised"]
    ctx.assumptions = ["std::string behaves as the C++ standard says", "file names of the shapes examined stand for all file names: the code sees names only through searches for separators and comparisons with literals"]
    m = translate("osmfile.cpp")
    n = Names(ctx, m)
    suffixes = {"pbf": ("OSM", "PBF"), "osm.pbf": ("OSM", "PBF")}
    for t, e in itertools.product(TYPES, ENCS):
        suffixes[TYPES[t] + ENCS[e]] = (t, e)
    dirs = ["", "/", "dir/", "/a/b.osc/", "./", "../x.osh.gz/", "a.b/c.d/", "/data/osm.pbf/", "osm/"]
    # documented suffixes, wherever the file is
    for suf, want in suffixes.items():
        for d in dirs:
            for base in ("x", "planet-2012", "osm"):
                n.check(n.play([n.new(d + base + "." + suf)]), n.selected, want, "suffix:" + suf, "the file name '%s'" % (d + base + "." + suf), "drv_new")
    # everything else gets the defaults for files
    default = None
    for s in n.play([n.new("file.unknown")]):
        default = n.selected(s)
    if default and None not in default:
        for d in dirs:
            for base in ("x.foo", "x.osm.foo", "x.pbfx", "x.osm.bz", "x.gz", "x.bz2", "x.osmpbf", "x.xosc", "x.", "nosuffix.zip", "x.osh.pbf.old", "x.pbf.osh"):
                n.check(n.play([n.new(d + base)]), n.selected, default, "unknown suffix", "the file name '%s'" % (d + base), "drv_new")
        for d in ("a.osm/", "b.osc.gz/", "/c.osh/", "x.pbf/y.osc/"):
            for base in ("planet", "extract"):
                n.check(n.play([n.new(d + base)]), n.selected, default, "directory", "the file name '%s'" % (d + base), "drv_new")
    # default names select what they were made for
    for t, e in itertools.product(TYPES, ENCS):
        tv, ev = next(v for v, x in n.types.items() if x == t), next(v for v, x in n.encs.items() if x == e)
        for d in dirs:
            for base in ("x", "x.osm.gz", "y.old", "z.osc"):
                st = n.play([n.new(d + base), ("drv_set_type", [F, tv], {}), ("drv_set_enc", [F, ev], {}), ("drv_with_suffix", [R, F], {})])
                for s in st:
                    c = s.mem.get((R, 0))
                    name = c[1][1] if c and c[0] == "s" and isinstance(c[1], tuple) else None
                    if name is None:
                        ctx.count("undecided names")
                        continue
                    stem = d + base.split(".")[0]
                    ctx.require(name.startswith(stem + ".") and "/" not in name[len(stem):], "default name", "the default name of a %s/%s file '%s' is '%s'" % (t, e, d + base, name))
                    n.check(n.play([n.new(name)]), n.selected, (t, e), "default suffix:%s/%s" % (t, e), "the default name '%s' of a %s/%s file" % (name, t, e), "drv_with_suffix")
                if not st:
                    ctx.violation("default name:error", "building the default name of '%s' ends with an error" % (d + base))
    # documented names of types and encodings
    kinds = {"type": ({"osm": "OSM", "history": "History", "osh": "History", "change": "Change", "osc": "Change"}, "drv_name_type", lambda s: n.selected(s)[0], ("", "OSM", "osmx", "os", "hist", "changes", "pbf", "xml", "Osh")),
             "encoding": ({"pbf": "PBF", "xml": "XML", "xmlgz": "XMLgz", "gz": "XMLgz", "xmlbz2": "XMLbz2", "bz2": "XMLbz2"}, "drv_name_enc", lambda s: n.selected(s)[1], ("", "PBF", "xmlg", "bz", "osm", "zip", "xml.gz", "pbf2", ".pbf"))}
    for k, (tab, fn, get, bad) in kinds.items():
        for first in ("x.osm", "x.osc.bz2", "x.osh.pbf"):
            for name, want in tab.items():
                n.check(n.play([n.new(first), (fn, [F, N], {(N, 0): S(name)})]), get, want, "%s name:%s" % (k, name), "the %s name '%s'" % (k, name), fn)
            for name in bad:
                ends = n.ends(n.new(first), (fn, [F, N], {(N, 0): S(name)}))
                ctx.count("names examined")
                if ends == {"ret", "throw"}:
                    ctx.count("undecided names")
                    continue
                ctx.require(ends != {"ret"}, "%s name:unknown" % k, "the unknown %s name '%s' is accepted (%s)" % (k, name, site(m, fn)))
    # standard input and output
    for name in ("", "-"):
        for calls, how in (([n.new(name)], "given at construction"), ([n.new("x.osm"), ("drv_name", [F, N], {(N, 0): S(name)})], "set later")):
            st = n.play(calls)
            n.check(st, lambda s: (n.name(s) or "").__class__ and (None if n.name(s) is None else "'%s'" % n.name(s)), "''", "stdio", "the file name '%s' %s" % (name, how), "drv_new")
            for op, fd in (("drv_open_in", 0), ("drv_open_out", 1)):
                xml = next(v for v, x in n.encs.items() if x == "XML")
                for s in n.play(calls + [("drv_set_enc", [F, xml], {}), (op, [F], {})]):
                    v = n.value("drv_get_fd", [F], s.mem)
                    ctx.count("names examined")
                    if v is None or v[0] != "i":
                        ctx.count("undecided names")
                        continue
                    ctx.require(v == I(fd) and not s.auto, "stdio:open", "opening the file name '%s' does not use standard %s (%s)" % (name, "input" if fd == 0 else "output", site(m, op)))
    # URLs
    for url in ("http://planet.osm.org/x", "https://h/x", "http://h/x.osm", "https://a.b/c.osh.pbf", "http://h:8080/a:b"):
        xml = next(v for v, x in n.encs.items() if x == "XML")
        st = n.play([n.new(url), ("drv_set_enc", [F, xml], {}), ("drv_open_in", [F], {})])
        ctx.count("names examined")
        ex = n.world.execs
        if ex and st and any(("sys", "open", url) in s.auto for s in st) or any(e[-2] is None for e in ex):
            ctx.count("undecided names")
            continue
        ctx.require(bool(ex) and all(e[-2:] == (url, None) for e in ex) and all(("sys", "open", url) not in s.auto for s in st), "url", "the URL '%s' is not given to the download program but %s (%s)" % (
            url, "opened as a file" if any(("sys", "open", url) in s.auto for s in st) else "executed as %s" % sorted(map(str, ex)), site(m, "drv_open_in")))
    st0 = None
    for url in ("http://h/x", "https://h/y", "http://h/x.osc.gz", "https://h/a.osh.pbf"):
        gs = {n.selected(s) for s in n.play([n.new(url)])}
        for g in gs:
            if len(gs) > 1 or None in g:
                ctx.count("undecided names")
                continue
            st0 = st0 or g
            ctx.require(g == st0, "url:default", "the URL '%s' selects %s/%s, others %s/%s" % ((url,) + g + st0))
    for name in ("https", "file.http:/x.osm", "./http:/x.osm", "httpx://a/b.osm", "ftp://h/x.osm", "a/http://b/c.osm", "HTTPS.osm"):
        if name in ("https",):
            continue
        xml = next(v for v, x in n.encs.items() if x == "XML")
        st = n.play([n.new(name), ("drv_set_enc", [F, xml], {}), ("drv_open_in", [F], {})])
        ctx.count("names examined")
        if n.world.execs and any(e[:2] == ("sys", "open") for s in st for e in s.auto):
            ctx.count("undecided names")
            continue
        ctx.require(not n.world.execs, "url:not", "the file name '%s' is taken for a URL" % name)
    ctx.at_least("names examined", 500)
