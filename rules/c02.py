"""The XML reader is interpreted abstractly on given documents: a model of expat hands their elements to the handlers the reader has
registered, and every callback is recorded together with what the delivered object says about itself. The documents cover all
attributes in several orders, present and absent, neighbouring attribute and element names, all sequences of two or three top-level
items, children in every kind of object, sections, and boundary values; what is delivered is compared with what the document says.
The same is done with objects that are kept by the handler, which are looked at again at the end. Nothing is executed."""
import itertools
from rules.readx import load, read, Doc, iso, REC
from rules.steps import Run
from ir import AnalysisBroken, Undecided
from absint import I
from scenario import obj
from orders import sgn
from rules.readx import bruijn

KINDS = ("node", "way", "relation")
FULL = {"id": "17", "version": "3", "changeset": "9", "timestamp": "2011-02-03T04:05:06Z", "uid": "5", "user": "joe", "visible": "true", "lon": "1.25", "lat": "-7.5"}
MEMBERS = {"node": "n", "way": "w", "relation": "r"}
NUM = {"version": lambda v: v & 0xffffffff, "changeset": lambda v: sgn(v & 0xffffffff, 32), "uid": lambda v: sgn(v & 0xffffffff, 32), "id": lambda v: v}


# documents ------------------------------------------------------------
def el(name, attrs=(), *kids):
    return (name, list(attrs.items()) if isinstance(attrs, dict) else list(attrs), list(kids))


def tag(k, v):
    return el("tag", [("k", k), ("v", v)])


def nd(r):
    return el("nd", [("ref", str(r))])


def member(t, r, role):
    return el("member", [("type", t), ("ref", str(r)), ("role", role)])


def flat(e):
    r = [("s", e[0], e[1])]
    for k in e[2]:
        r += flat(k)
    return r + [("e", e[0])]


def words(e):
    a = "".join(" %s=\"%s\"" % x for x in e[1])
    return "<%s%s>%s</%s>" % (e[0], a, "".join(words(k) for k in e[2]), e[0]) if e[2] else "<%s%s/>" % (e[0], a)


def expected(doc):
    """[(position of the end tag, kind, fields, tags, children)] in order of delivery"""
    out = []
    pos = [0]

    def walk(e, path):
        here = pos[0]
        pos[0] += 1
        for k in e[2]:
            walk(k, path + (e[0],))
        if e[0] in KINDS and path and path[0] in ("osm", "osmChange") and (len(path) == 1 or len(path) == 2 and path[1] in ("create", "modify", "delete")):
            a = dict(e[1])
            f = {x: a[x] for x in FULL if x in a and (e[0] == "node" or x not in ("lon", "lat"))}
            if "delete" in path:
                f["visible"] = "false"
            tags, kids = [], []
            for k in e[2]:
                b = dict(k[1])
                if k[0] == "tag":
                    tags.append((b.get("k"), b.get("v")))
                elif k[0] == "nd" and e[0] == "way":
                    kids.append(b.get("ref"))
                elif k[0] == "member" and e[0] == "relation":
                    kids.append((b.get("type"), b.get("ref"), b.get("role")))
            out.append((pos[0], e[0], f, tags, kids))
        pos[0] += 1
    walk(doc, ())
    return out


class Object:
    def __init__(self, kind, at):
        self.kind, self.at, self.f, self.tags, self.kids = kind, at, {}, [], []


def records(auto):
    """objects in the order in which they were delivered, and the looks at the end"""
    objs, again, at, cur, final = [], [], None, None, False
    for e in auto:
        if e[0] == "event":
            at = e[1]
        elif e[0] == "kind":
            if e[1] in KINDS:
                cur = Object(e[1], at)
                (again if final else objs).append(cur)
            else:
                cur = None
                final = final or e[1] == "final"
        elif cur is not None:
            if e[0] == "k":
                cur.tags.append((e[1], None))
            elif e[0] == "v":
                cur.tags[-1] = (cur.tags[-1][0], e[1])
            elif e[0] == "type":
                cur.kids.append([e[1], None, None])
            elif e[0] == "ref" and cur.kind == "way":
                cur.kids.append(e[1])
            elif e[0] == "ref":
                cur.kids[-1][1] = e[1]
            elif e[0] == "role":
                cur.kids[-1][2] = e[1]
            elif e[0] in FULL or e[0] == "defined":
                cur.f[e[0]] = e[1]
    return objs, again


class Check:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        self.fresh = {}
        for k in KINDS:
            w = Doc(m, [])
            r = Run(m, w)
            o = obj("fresh")
            if r.step("drv_mk_" + k, o, *([I(0)] if k == "way" else [])) == "ret" and r.step("drv_again_" + k, o) == "ret":
                self.fresh[k] = records((("event", 0),) + r.auto)[0][0].f
            else:
                raise AnalysisBroken("a new %s cannot be looked at" % k)

    def want(self, kind, x, f):
        if x not in f:
            return self.fresh[kind].get(x)
        v = f[x]
        if x == "user":
            return v
        if x == "visible":
            return int(v == "true")
        if x == "timestamp":
            return iso(v)
        if x in ("lon", "lat"):
            return float(v)
        return NUM[x](int(v))

    def play(self, doc, what="", parts=None, unique=(True, False)):
        ctx = self.ctx
        evs = flat(doc)
        exp = expected(doc)
        for u in unique:
            w = Doc(self.m, evs, parts and [len(evs[:parts]), len(evs[parts:])], unique=u)
            try:
                r = read(self.m, w)
            except (Undecided, AnalysisBroken):
                r = None
            if r is None:
                ctx.count("undecided documents")
                continue
            how, kind, auto = r
            txt = words(doc)
            if len(txt) > 420:
                txt = txt[:400] + " ..."
            if how == "bad":
                ctx.require(False, "access", "%s while reading %s" % (", ".join("%s at %s" % (v, k) for k, v in kind.items()), txt))
                continue
            if any(len(e) == 2 and e[1] is None for e in auto):
                ctx.count("undecided documents")
                continue
            ctx.count("documents")
            if not ctx.require(how == "ret", "throw", "reading the well-formed document %s fails" % txt):
                continue
            objs, again = records(auto)
            if not ctx.require([o.kind for o in objs] == [e[1] for e in exp], "delivered:" + what, "the document %s delivers %s" % (txt, ", ".join("a " + o.kind for o in objs) or "nothing")):
                continue
            for o, (at, kd, f, tags, kids) in zip(objs, exp):
                ctx.count("objects compared")
                ctx.require(o.at == at, "end:" + kd, "in %s a %s is delivered at %s, not at its own end tag" % (txt, kd, "<%s%s>" % ("" if evs[o.at][0] == "s" else "/", evs[o.at][1]) if o.at is not None else "the start"))
                self.compare(o, kd, f, tags, kids, txt)
            if not u:
                ctx.require(len(again) == len(objs), "kept", "objects kept by the handler cannot be looked at after reading %s" % txt) if again or not objs else None
                for o, p in zip(objs, again):
                    ctx.count("objects looked at again")
                    ctx.require((o.f, o.tags, o.kids) == (p.f, p.tags, p.kids), "modify:" + o.kind, "in %s a %s that has been delivered, and is kept by the handler, changes: %s" % (txt, o.kind, diff(o, p)))

    def compare(self, o, kd, f, tags, kids, txt):
        ctx = self.ctx
        if kd == "node":
            d = "lon" in f and "lat" in f
            if d:
                ctx.require(o.f.get("defined") == 1, "field:position", "in %s a node is delivered without a position" % txt)
            elif "lon" not in f and "lat" not in f:
                ctx.require(o.f.get("defined") == 0, "field:position", "in %s a node is delivered with the position %s, %s, which is not its own" % (txt, o.f.get("lon"), o.f.get("lat")))
        for x in FULL:
            if x in ("lon", "lat"):
                if kd == "node" and o.f.get("defined") and d:
                    ctx.require(abs(o.f[x] - float(f[x])) < 0.6e-7, "field:" + x, "in %s the %s of a node is %.9f, not %s" % (txt, x, o.f[x], f[x]))
                continue
            v = self.want(kd, x, f)
            if v is None:
                continue
            g = o.f.get(x)
            if x == "version":
                g = g & 0xffffffff
            ctx.require(g == v, ("field:" if x in f else "foreign:") + x, "in %s the %s of a %s is %r, not %s" % (txt, x, kd, g, repr(v) if x in f else "that of an object without one"))
        ok = len(o.tags) == len(tags) and all((k is None and g not in used or k == g) and (v is None and h not in used or v == h) for (k, v), (g, h) in zip(tags, o.tags) for used in [used_texts(txt)])
        ctx.require(ok, "tags:" + kd, "in %s the tags of a %s are %s" % (txt, kd, ", ".join("%s=%s" % t for t in o.tags) or "none"))
        if kd == "way":
            w = [int(x) for x in kids if x is not None]
            ctx.require(o.kids == w, "nodes", "in %s the node references of a way are %s" % (txt, ", ".join(str(x) for x in o.kids) or "none"))
        if kd == "relation":
            ok = len(o.kids) == len(kids)
            for (t, r, role), (gt, gr, grole) in zip(kids, o.kids):
                ok = ok and (gt == ord(MEMBERS[t]) if t is not None else gt not in [ord(c) for c in "nwr"]) and (gr == int(r) if r is not None else gr == 0) and grole == (role or "")
            ctx.require(ok, "members", "in %s the members of a relation are %s" % (txt, ", ".join("%s%s %s" % (chr(a & 255), b, repr(c)) for a, b, c in o.kids) or "none"))

    # ---- which documents ----------------------------------------------
    def attributes(self):
        plain = list(FULL.items())
        decoys = [("ide", "901"), ("i", "902"), ("versions", "903"), ("Version", "904"), ("uids", "905"), ("us", "x906"), ("users", "x907"), ("lo", "8.5"), ("long", "8.75"), ("Lat", "9.25"), ("time", "x"),
                  ("visibl", "false"), ("visibles", "false"), ("x", "false"), ("", "7"), ("change", "908"), ("ref", "909"), ("k", "kk"), ("v", "vv"), ("role", "rr")]
        for k in KINDS:
            own = plain if k == "node" else [a for a in plain if a[0] not in ("lon", "lat")]
            lists = [own, own[::-1]] + [own[n:] + own[:n] for n in range(1, len(own))] + [[a] for a in own] + [own[:n] + own[n + 1:] for n in range(len(own))]
            lists += [decoys + own, own + decoys, own[:4] + decoys + own[4:], decoys, decoys[::-1] + own[::-1]]
            if k != "node":
                lists += [own + [("lon", "1.5"), ("lat", "2.5")], [("lon", "1.5")] + own]
            others = {"node": [("id", "90"), ("lon", "50.5"), ("lat", "60.5")], "way": [("id", "91")], "relation": [("id", "92")]}
            full = [("id", "77"), ("version", "78"), ("changeset", "79"), ("timestamp", "2001-01-01T01:01:01Z"), ("uid", "80"), ("user", "other"), ("visible", "false")]
            for n, l in enumerate(lists):
                before = KINDS[n % 3]
                self.play(el("osm", [("version", "0.6"), ("generator", "t")], el(before, others[before] if n % 2 else full + [a for a in others[before] if a[0] != "id"], tag("before", "b")), el(k, l), el(k, [("id", "5")])), "attributes")

    def values(self):
        for x, vs in (("id", ("0", "-1", "2147483647", "2147483648", "-2147483649", "4294967296", "17179869184", "9007199254740993", "-9007199254740993", "1099511627776")),
                      ("version", ("0", "1", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647")), ("changeset", ("0", "127", "128", "32768", "65536", "2147483647")),
                      ("uid", ("0", "-1", "128", "32768", "65536", "2147483647")), ("visible", ("true", "false")),
                      ("user", ("", "a", " a b ", "\xc3\xa4\xe2\x82\xac", "true", "x" * 255, "0")),
                      ("timestamp", ("1970-01-01T00:00:00Z", "1970-01-01T00:00:01Z", "1999-12-31T23:59:59Z", "2012-02-29T12:00:00Z", "2037-12-31T23:59:59Z"))):
            for v in vs:
                for k in KINDS if x in ("id", "visible") or self.ctx.thorough else KINDS[:1]:
                    self.play(el("osm", {"version": "0.6"}, el(k, [("id", "4"), (x, v)] if x != "id" else [(x, v)]), el(k, [("id", "5")])), "values", unique=(True,))
        for v in ("0", "-180", "180", "90", "-90", "0.0000001", "-0.0000001", "1.23456785", "-1.23456785", "179.9999999", "-179.9999999", "0.00000004", "123.4567891", "1e-3", "+12.5", "7", "-0", "12.3456789012345"):
            for x, y in (("lon", "lat"), ("lat", "lon")):
                self.play(el("osm", {"version": "0.6"}, el("node", [("id", "4"), (x, v), (y, "45.5")])), "values", unique=(True,))
        for r in ("0", "-1", "2147483648", "4294967297", "9007199254740993", "-2147483649"):
            self.play(el("osm", {"version": "0.6"}, el("way", {"id": "4"}, nd(r)), el("relation", {"id": "5"}, member("node", r, "a"))), "values", unique=(True,))

    def children(self):
        a = [tag("a", "b"), tag("", ""), tag("a", "b"), el("tag", [("v", "B"), ("k", "A")]), el("tag", [("kk", "N1"), ("k", "K"), ("vv", "N2"), ("v", "V"), ("ke", "N3"), ("val", "N4")]), tag("\xc3\xa4\"<&", "\n\t 'x"),
             tag("x" * 255, "y" * 255), el("tag", [("key", "N5"), ("k", "k"), ("value", "N6"), ("v", "v")])]
        half = [tag("PK", "PV"), el("tag", [("k", "only")]), el("tag", [("v", "lone")]), el("tag"), tag("QK", "QV")]
        odd = [el("ta", [("k", "N7"), ("v", "N8")]), el("tags", [("k", "N7"), ("v", "N8")]), el("Tag", [("k", "N7"), ("v", "N8")]), el("n", [("ref", "601")]), el("nds", [("ref", "602")]), el("members", [("type", "node"), ("ref", "603"), ("role", "q")]),
               el("memb", [("type", "node"), ("ref", "603"), ("role", "q")]), el("", [("ref", "604")])]
        deep = [el("tag", [("k", "k1"), ("v", "v1")], tag("N9", "N10"), el("x", {}, tag("N11", "N12"))), el("foo", {}, tag("N13", "N14"), nd(701), member("way", 702, "N15")), tag("k2", "v2"), el("nd", [("ref", "31")], tag("N16", "N17"), nd(32)), el("member", [("type", "way"), ("ref", "33"), ("role", "")], nd(34), member("node", 35, "N18"))]
        nds = [nd(1), nd(1), nd(2), el("nd", [("re", "605"), ("ref", "3"), ("refs", "606"), ("id", "607")]), nd(-4), nd(1)]
        perms = [el("member", list(p)) for p in itertools.permutations([("type", "way"), ("ref", "8"), ("role", "inner")])]
        mem = [member("node", 1, "a"), member("way", 1, "a"), member("relation", 1, "b"), member("node", 1, "a"), member("way", -3, "")]
        less = [member("relation", 9, "old"), el("member", [("type", "way"), ("ref", "8")]), member("relation", 9, "old"), el("member", [("ref", "8"), ("role", "z")]), member("relation", 9, "old"), el("member", [("type", "node"), ("role", "z")]), el("member", [("types", "way"), ("type", "node"), ("typ", "way"), ("id", "3"), ("ref", "7"), ("refs", "8"), ("role", "R"), ("roles", "Q")])]
        sets = [[x] for x in a] + [a, a[::-1], half, odd, deep, odd + a[:2] + odd, nds, mem, perms, less, mem + nds + a[:2], a[:2] + nds + mem, [tag("a", "1"), nd(1), tag("b", "2"), nd(2), member("way", 1, "m"), tag("c", "3"), nd(3), member("node", 2, "n")]]
        sets += [[x] for x in odd + deep] + [[nd(k) for k in range(1, 6)], [member("way", k, "r%d" % k) for k in range(1, 6)], [tag("k%d" % k, "v%d" % k) for k in range(6)]]
        for k in KINDS:
            for n, c in enumerate(sets):
                self.play(el("osm", {"version": "0.6"}, el(KINDS[n % 3], {"id": "1"}, tag("zz", "zz"), nd(99), member("way", 99, "zz")), el(k, {"id": "2"}, *c), el(k, {"id": "3"})), "children")

    def mixtures(self):
        """long documents: every number of children after every other, with changing sets of attributes and sections"""
        for size, order in ((5, 2), (3, 3)):
            l = bruijn(size, order)
            for q, k in enumerate(KINDS):
                for root in ("osm", "osmChange"):
                    items, sec = [], []
                    for n, x in enumerate(l):
                        own = [(a, str(n + 100) if a in ("version", "changeset", "uid") else "u%d" % n if a == "user" else "2011-02-%02dT04:05:06Z" % (n + 1) if a == "timestamp" else v) for j, (a, v) in enumerate(FULL.items()) if a not in ("lon", "lat", "id") and (n * 7 + q * 3 + x) * 31 >> j & 1]
                        if k == "node" and n % 3:
                            own += [("lon", "%d.5" % n), ("lat", "-%d.25" % n)]
                        kids = [(tag("k%d" % y, "v%d" % n), nd(9 * n - 4 * y), member(("node", "way", "relation")[(n + y) % 3], 9 * n - 4 * y, "r%d" % y))[z] for y in range(x) for z in ((n + y) % 3, q)][:max(x, 2 * x - n % 2)]
                        e = el(k, [("id", str(n))] + own if n % 2 else own + [("id", str(n))], *kids)
                        if root == "osmChange" and n % 4:
                            sec.append(e)
                            if n % 4 == 3 or n == len(l) - 1:
                                items.append(el(("create", "delete", "modify", "delete")[n // 4 % 4], {}, *sec))
                                sec = []
                        else:
                            items.append(e)
                    self.play(el(root, [("version", "0.6")], *items), "mixture", unique=((len(l) + q) % 2 == 0,))

    def sequences(self):
        def item(k, n):
            kids = [tag("t%d" % n, "u%d" % n), nd(n), member("way", n, "m%d" % n)]
            return el(k, [("id", str(n)), ("lon", "%d.5" % n), ("lat", "%d.25" % n), ("user", "u%d" % n)], *kids)

        def obj3(n):
            return [item(k, 10 * n + j) for j, k in enumerate(KINDS)]
        items = {"node": lambda n: item("node", n), "way": lambda n: item("way", n), "relation": lambda n: item("relation", n), "bare way": lambda n: el("way", {"id": str(n)}), "bare node": lambda n: el("node", {"id": str(n)}),
                 "bare relation": lambda n: el("relation", {"id": str(n)}),
                 "delete": lambda n: el("delete", {}, *obj3(n)), "create": lambda n: el("create", {}, *obj3(n)), "modify": lambda n: el("modify", {"version": "0.3"}, *obj3(n)), "empty delete": lambda n: el("delete"),
                 "bounds": lambda n: el("bounds", [("minlon", "1"), ("minlat", "2"), ("maxlon", "3"), ("maxlat", "4")]), "note": lambda n: el("note", [("id", str(n))]), "text": lambda n: el("changeset", {"id": str(n)}, tag("N19", "N20"))}
        names = list(items)
        for root in ("osm", "osmChange"):
            for p in [()] + [(x,) for x in names] + list(itertools.product(names, repeat=2)):
                if root == "osm" or "delete" in p or "create" in p or "modify" in p or "empty delete" in p:
                    self.play(el(root, [("version", "0.6")], *[items[x](n + 1) for n, x in enumerate(p)]), "sequence", unique=(False,) if not self.ctx.thorough and len(p) == 2 else (True, False))
        trip = list(itertools.product(names, repeat=3))
        if not self.ctx.thorough:
            trip = [t for k, t in enumerate(trip) if k % 29 == 0]
        for k, p in enumerate(trip):
            self.play(el("osmChange", [("version", "0.6")], *[items[x](n + 1) for n, x in enumerate(p)]), "sequence", unique=(k % 2 == 0,))
        for vis in ("true", "false"):
            for s in ("delete", "create", "modify"):
                for k in KINDS:
                    self.play(el("osmChange", {"version": "0.6"}, el(s, {}, el(k, [("id", "1"), ("visible", vis)]), el(k, [("visible", vis), ("id", "2")])), el(k, [("id", "3")]), el(s, {}, el(k, {"id": "4"}))), "section")
        # split over several buffers
        doc = el("osm", {"version": "0.6"}, el("node", FULL, tag("a", "b")), el("way", {"id": "2"}, nd(1), tag("c", "d"), nd(2)), el("relation", {"id": "3"}, member("way", 2, "x"), tag("e", "f")))
        for cut in range(1, len(flat(doc))):
            self.play(doc, "buffers", parts=cut, unique=(cut % 2 == 0,))
        # many children
        n = 600 if self.ctx.thorough else 260
        self.play(el("osm", {"version": "0.6"}, el("way", {"id": "2"}, *[nd(k * k % 301) for k in range(n)])), "many", unique=(True,))
        self.play(el("osm", {"version": "0.6"}, el("relation", {"id": "3"}, *[member("way", k * k % 301, "r%d" % (k % 7)) for k in range(n)])), "many", unique=(True,))
        self.play(el("osm", {"version": "0.6"}, el("way", {"id": "2"}, *[tag("k%d" % (k % 9), "v%d" % (k % 7)) for k in range(n)])), "many", unique=(True,))
        self.play(el("osm", {"version": "0.6"}, *[el(KINDS[k % 3], {"id": str(k)}) for k in range(n)]), "many", unique=(True,))
        self.play(el("osm", {"version": "0.6"}, el("way", {"id": "2"}, *[nd(k * 7 % 5) for k in range(30)]), el("relation", {"id": "3"}, *[member("way", k * 7 % 5, "r") for k in range(30)])), "many")


def used_texts(txt):
    """texts that belong to attributes; one that is missing cannot be any of them"""
    import re
    return set(re.findall(r'"([^"]+)"', txt))


def diff(a, b):
    r = ["%s becomes %s" % (x, b.f.get(x)) for x in a.f if a.f[x] != b.f.get(x)]
    if a.tags != b.tags:
        r.append("its tags become %s" % (", ".join("%s=%s" % t for t in b.tags) or "none"))
    if a.kids != b.kids:
        r.append("its members or node references become %s" % (b.kids or "none"))
    return ", ".join(r)


def run(ctx):
    ctx.rules = ["an object is delivered too often, not at all or not at its own end tag", "a field, tag, node reference or member differs from what the element says or comes from another element", "an object kept by the handler changes after it was delivered",
                 "an object in a delete section is visible, or one outside it is not", "an access behind the last attribute"]
    ctx.assumptions = ["the XML library delivers the elements and attributes of the document in order", "documents are a finite family: every attribute in several orders, neighbouring names, every sequence of two top-level items and of three (thorough; a sample in quick)",
                       "whether an object is shared with the handler is a parameter of the document", "documents whose reading the interpreter cannot follow are not judged (counted as undecided)"]
    m = load(ndebug=not ctx.thorough)
    c = Check(ctx, m)
    c.attributes()
    c.values()
    c.children()
    c.mixtures()
    c.sequences()
    ctx.at_least("documents", 100)
