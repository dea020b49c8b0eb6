"""The XML writer is interpreted abstractly over sequences of objects with representative contents: every call of the XML library
is an event, so that each history is a document, which is compared with the elements, attributes, children and sections that
the objects call for. Nothing is executed."""
from absint import I
from scenario import obj
from rules.handlers import site
from rules.lists import run_fn
from rules.xmlw import Xml, Writer, load, X, META
from ir import AnalysisBroken

SPECIAL = "<a&b> \"q\" 'x' %d %s%n 100% \u00e9\u20ac\U0001f600".encode("utf-8").decode("latin-1")
TYPES = {"n": "node", "w": "way", "r": "relation"}


class Bad(Exception):
    pass


class Unknown(Exception):
    pass


def tree(ev):
    """the document the events produce: [(name, {attribute: value}, [children])]"""
    top = ["", {}, []]
    open_, state, attr = [top], "content", None
    for e in ev:
        k = e[0]
        cur = open_[-1]
        if k == "?":
            raise Unknown("%s" % e[1])
        if k in ("start", "element"):
            if e[1] is None:
                raise Unknown("name of an element")
            if len(open_) == 1 and top[2]:
                raise Bad("a second document element <%s>" % e[1])
            n = [e[1], {}, []]
            cur[2].append(n)
            if k == "start":
                open_.append(n)
                state = "tag"
            else:
                n[1]["#text"] = e[2]
                state = "content"
        elif k in ("attr", "startattr"):
            if e[1] is None:
                raise Unknown("name of an attribute")
            if state != "tag" or len(open_) == 1:
                raise Bad("attribute %s of <%s> is written after its children" % (e[1], cur[0]))
            if e[1] in cur[1]:
                raise Bad("attribute %s of <%s> is written twice" % (e[1], cur[0]))
            if k == "attr":
                if e[2] is None:
                    if e[3]:
                        raise Bad("attribute %s of <%s> has no value" % (e[1], cur[0]))
                    raise Unknown("value of attribute %s" % e[1])
                cur[1][e[1]] = e[2]
            else:
                cur[1][e[1]], state, attr = (), "attr", e[1]
        elif k == "string":
            if e[1] is None:
                raise Unknown("a text")
            if state == "attr":
                cur[1][attr] += e[1]
            else:
                state = "content"
        elif k == "endattr":
            state = "tag"
        elif k == "end":
            if len(open_) == 1:
                raise Bad("an element is ended where none is open")
            open_.pop()
            state = "content"
        elif k == "enddoc":
            del open_[1:]
            state = "content"
        elif k == "raw":
            raise Bad("text is written without escaping")
        elif k == "free" and len(open_) > 1:
            raise Bad("the document ends with <%s> still open" % open_[-1][0])
    return top[2]


def word(v):
    if isinstance(v, tuple):
        return "".join(x if isinstance(x, str) else "<%s>" % (x[0],) for x in v)[:60].encode("latin-1", "replace").decode("utf-8", "replace")
    return str(v)


class Doc:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        self.ll = {}

    def lonlat(self, p):
        if p not in self.ll:
            o = []
            for fn in ("drv_lon", "drv_lat"):
                r = run_fn(self.m, Xml(self.m), fn, [I(p[0]), I(p[1])], {})
                if len(r) != 1 or r[0][1] is None:
                    raise AnalysisBroken("the longitude of a position is not a term")
                o.append(r[0][1])
            self.ll[p] = o
        return self.ll[p]

    def degrees(self, v, want):
        """is the value a decimal number of degrees with enough digits?"""
        return isinstance(v, tuple) and len(v) == 1 and isinstance(v[0], tuple) and v[0][0] == "f" and v[0][1] >= 7 and v[0][2] == want

    def attrs(self, el, what, must, may, fn, key):
        """must: {name: value}; may: values allowed if present"""
        at = site(self.m, fn)
        for n, v in must.items():
            got = el[1].get(n)
            good = self.degrees(got, v) if isinstance(v, tuple) and v and v[0] in "si" else got == ((v,) if v else ())
            self.ctx.require(good, "%s:%s" % (key, n), "%s: <%s> %s (%s)" % (what, el[0], "has no attribute %s" % n if got is None else "has %s='%s'%s" % (n, word(got), "" if isinstance(v, tuple) else ", expected '%s'" % word((v,))), at))
        for n in el[1]:
            if n not in must:
                ok = n in may and el[1][n] in may[n]
                self.ctx.require(ok, "%s:%s" % (key, n), "%s: <%s> has %s='%s' (%s)" % (what, el[0], n, word(el[1][n]), at))

    def child(self, el, what, want, fn, key, name):
        got = [c for c in el[2] if c[0] == name]
        self.ctx.require(len(got) == len(want), "%s:%s" % (key, name), "%s: %d <%s> elements, expected %d (%s)" % (what, len(got), name, len(want), site(self.m, fn)))
        if len(got) == len(want):
            for c, x in zip(got, want):
                self.attrs(c, what, x, {}, fn, "%s:%s" % (key, name))
                self.ctx.require(not c[2], "%s:%s" % (key, name), "%s: <%s> has children (%s)" % (what, name, site(self.m, fn)))

    def element(self, el, o, ftype):
        kind, fn = o["kind"], "drv_" + o["kind"]
        what = "%s %s" % (kind, o.get("what", ""))
        self.ctx.count("elements")
        self.ctx.require(el[0] == kind, "element", "a %s is written as <%s> (%s)" % (kind, el[0], site(self.m, fn)))
        if el[0] != kind:
            return
        must, may = {"id": str(o["id"])}, {}
        opt = lambda n, v, on: must.__setitem__(n, v) if on else may.__setitem__(n, ((v,), ()))
        opt("version", str(o["version"]), o["version"])
        opt("changeset", str(o["changeset"]), o["changeset"])
        opt("timestamp", "<iso %d>" % o["timestamp"], o["timestamp"])
        opt("uid", str(o["uid"]), o["uid"] > 0)
        opt("user", o["user"], o["uid"] > 0)
        opt("visible", "true" if o["visible"] else "false", ftype == "osh")
        if kind == "node" and o.get("pos") and 2147483647 not in o["pos"]:
            must["lon"], must["lat"] = self.lonlat(o["pos"])
        self.attrs(el, what, must, may, fn, kind)
        self.child(el, what, [{"k": k, "v": v} for k, v in o.get("tags", ())], fn, kind, "tag")
        self.child(el, what, [{"ref": str(r)} for r in o.get("nodes", ())], fn, kind, "nd")
        self.child(el, what, [{"type": TYPES[t], "ref": str(r), "role": role} for t, r, role in o.get("members", ())], fn, kind, "member")
        self.ctx.require(all(c[0] in ("tag", "nd", "member") for c in el[2]), "%s:child" % kind, "%s: unexpected children (%s)" % (what, site(self.m, fn)))

    def play(self, ftype, objects, bounds=(), generator=None):
        r = Writer(self.m, Xml(self.m))
        miss = lambda: self.ctx.count("undecided histories")
        if not r.open("name." + ftype):
            return miss()
        if r.step("drv_meta", META) != "ret" or any(r.step("drv_extend", META, I(x), I(y)) != "ret" for x, y in bounds):
            return miss()
        if generator is not None and r.step("drv_generator", X, obj("GEN"), cells={(obj("GEN"), 0): ("s", ("str", generator))}) != "ret":
            return miss()
        kinds = []
        for k, o in enumerate(objects):
            if not r.make("O%d" % k, **{a: b for a, b in o.items() if a != "what"}):
                return miss()
        calls = [("drv_init", META)] + [("drv_" + o["kind"], obj("ptr.O%d" % k)) for k, o in enumerate(objects)] + [("drv_final",), ("drv_del",)]
        for c in calls:
            how = r.step(c[0], X, *c[1:])
            if how == "bad":
                l = list(r.broke.items())[0]
                self.ctx.violation("use", "%s (%s)" % (l[1], l[0]))
                return
            if isinstance(how, tuple):
                self.ctx.violation("throws", "writing %s throws without a failure (%s)" % ("a " + c[0][4:] if c[0] not in ("drv_init", "drv_final") else "the document", site(self.m, c[0])))
                return
            if how is None:
                return miss()
        what = "a file of type %s with %s" % (ftype, ", ".join("%s%s" % (o["kind"], "" if ftype != "osc" else " version %d%s" % (o["version"], "" if o["visible"] else " (deleted)")) for o in objects[:6]) or "no objects")
        at = site(self.m, "drv_final")
        try:
            t = tree(r.auto)
        except Bad as e:
            self.ctx.require(False, "nesting", "%s: %s (%s)" % (what, e, at))
            return
        except Unknown as e:
            return self.ctx.count("undecided histories")
        self.ctx.count("documents")
        enc = [e[1] for e in r.auto if e[0] == "doc"]
        self.ctx.require(all(x is None or x.upper() in ("UTF-8", "UTF8") for x in enc), "encoding", "the document declares the encoding %s (%s)" % (enc, site(self.m, "drv_init")))
        root = "osmChange" if ftype == "osc" else "osm"
        if not self.ctx.require(len(t) == 1 and t[0][0] == root, "root", "%s: the document element is %s, expected <%s> (%s)" % (what, "<%s>" % t[0][0] if t else "missing", root, site(self.m, "drv_init"))):
            return
        t = t[0]
        self.ctx.require(t[1].get("version") == ("0.6",), "root:version", "%s: version is %s (%s)" % (what, word(t[1].get("version")), site(self.m, "drv_init")))
        if generator is not None:
            self.ctx.require(t[1].get("generator") == (generator,), "root:generator", "%s: generator is %s (%s)" % (what, word(t[1].get("generator")), site(self.m, "drv_init")))
        bs = [c for c in t[2] if c[0] == "bounds"]
        self.ctx.require(len(bs) == (1 if bounds else 0), "bounds", "%s: %d <bounds> elements (%s)" % (what, len(bs), site(self.m, "drv_init")))
        if bs and bounds:
            lo, hi = (min(x for x, y in bounds), min(y for x, y in bounds)), (max(x for x, y in bounds), max(y for x, y in bounds))
            self.attrs(bs[0], what, {"minlon": self.lonlat(lo)[0], "minlat": self.lonlat(lo)[1], "maxlon": self.lonlat(hi)[0], "maxlat": self.lonlat(hi)[1]}, {}, "drv_init", "bounds")
        rest = [c for c in t[2] if c[0] != "bounds"]
        flat = []
        if ftype == "osc":
            for c in rest:
                if not self.ctx.require(c[0] in ("create", "modify", "delete"), "section", "%s: <%s> outside of a section (%s)" % (what, c[0], at)):
                    return
                flat += [(c[0], x) for x in c[2]]
        else:
            flat = [(None, c) for c in rest]
        if not self.ctx.require(len(flat) == len(objects), "objects", "%s: %d elements are written (%s)" % (what, len(flat), at)):
            return
        for (sec, el), o in zip(flat, objects):
            if ftype == "osc":
                want = "delete" if not o["visible"] else "create" if o["version"] == 1 else "modify"
                if o["version"]:
                    self.ctx.require(sec == want, "section:" + want, "%s: a %s of version %d%s is in section <%s> (%s)" % (what, o["kind"], o["version"], "" if o["visible"] else " that is deleted", sec, site(self.m, "drv_" + o["kind"])))
            self.element(el, o, ftype)


def objects():
    base = dict(id=1, version=1, changeset=0, timestamp=0, uid=-1, user="", visible=True)
    B = lambda **k: dict(base, **k)
    A, C = (111, -1003), (-1800000000, 900000000)
    out = []
    for kind in ("node", "way", "relation"):
        out += [B(kind=kind, what="with nothing"), B(kind=kind, id=-17, version=2, changeset=3, timestamp=5, uid=7, user="joe", what="with all fields"),
                B(kind=kind, id=(1 << 40) + 9, version=4294967295, changeset=2147483647, timestamp=1 << 33, uid=2147483647, user=SPECIAL, what="with large numbers and a special user name"),
                B(kind=kind, id=-(1 << 62), version=0, changeset=12, uid=0, what="of uid 0 without version"), B(kind=kind, version=9, timestamp=77, uid=12, user="", visible=False, what="that is deleted"),
                B(kind=kind, version=70000, changeset=70001, timestamp=70002, uid=70003, user="%d", what="of user %d"),
                B(kind=kind, tags=[("k", "v")], what="with a tag"), B(kind=kind, uid=3, user="u", visible=False, tags=[(SPECIAL, SPECIAL), ("", ""), ("x", SPECIAL), ("%s", "%s")], what="with special tags")]
        out.append(B(kind=kind, user="u" * 300, uid=70000, tags=[("k%d" % k, "v" * (70 * k)) for k in range(12)], what="with long texts"))
    out += [B(kind="node", pos=A, what="at a position"), B(kind="node", pos=C, tags=[("a", "b")], what="at a position and with a tag"), B(kind="node", pos=(0, 0), what="at 0/0"), B(kind="node", pos=(2147483647, 5), what="without longitude"),
            B(kind="node", pos=(5, 2147483647), what="without latitude"), B(kind="node", pos=A, visible=False, version=3, what="at a position, deleted")]
    out += [B(kind="way", nodes=[5], what="with a node"), B(kind="way", nodes=[5, -6, (1 << 41) + 3, 5], tags=[("k", "v"), ("l", "w")], what="with nodes and tags")]
    out += [B(kind="relation", members=[("n", 5, "")], what="with a member"), B(kind="relation", members=[("w", -6, SPECIAL), ("r", (1 << 41) + 3, "%s"), ("n", 5, "inner"), ("w", 7, "outer"), ("r", 8, "r" * 300)] + [("n", k, str(k)) for k in range(9)], tags=[("k", "v"), ("type", "x")], what="with members and tags")]
    return out


def run(ctx):
    ctx.rules = ["elements are balanced and attributes precede children", "texts are written through the library's escaping functions and never as format", "each field is an attribute of the name the reader understands",
                 "each object is in the section of a change file its visibility and version call for", "all objects appear once, in order"]
    ctx.assumptions = ["contents of objects are representatives: the writer steps through lists and compares no contents with each other", "the XML library escapes what is passed as attribute value or text", "timestamps become text in a function of its own (C21)"]
    m = load()
    D = Doc(ctx, m)
    obs = objects()
    for ft in ("osm", "osh", "osc"):
        D.play(ft, [])
        D.play(ft, [], bounds=[(111, -1003)])
        D.play(ft, obs[:1], bounds=[(111, -1003), (-5, 2000), (300, 7)], generator=SPECIAL)
        for o in obs:
            D.play(ft, [o])
        D.play(ft, obs[::2])
        D.play(ft, obs[1::2], bounds=[(0, 0), (1, 1)])
        D.play(ft, list(reversed(obs)))
    # sections
    states = [(1, True), (2, True), (1, False), (2, False), (3, True)]
    kinds = ("node", "way", "relation")
    n = 0
    import itertools
    for l in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for seq in itertools.product(states, repeat=l):
            n += 1
            D.play("osc", [dict(kind=kinds[(n + k // 2) % 3], id=10 + k, version=v, changeset=0, timestamp=0, uid=-1, user="", visible=vis) for k, (v, vis) in enumerate(seq)])
            if l == 2:
                for ks in itertools.product(kinds, repeat=2):
                    D.play("osc", [dict(kind=ks[k], id=10 + k, version=v, changeset=0, timestamp=0, uid=-1, user="", visible=vis) for k, (v, vis) in enumerate(seq)])
    ctx.at_least("documents", 100)
