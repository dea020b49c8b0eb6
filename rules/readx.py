"""The XML reader over a model of expat: the events of a given document, with given attributes, are handed to the element handlers the
reader has registered, and what it delivers is recorded through the public interface of the objects. Contents of strings and lists,
numbers and coordinates are computed by the abstract interpreter; nothing is executed."""
import calendar, math, re
from ir import translate, FOREACH, STDFN, strip_templates, AnalysisBroken, Undecided
from absint import I
from scenario import obj
from seqs import ITERS
from strings import S
from orders import sgn
from rules.xmlw import Xml, FILE, NAME
from rules.steps import Run
from rules.lists import run_fn

ROUND = ("round", "lround", "llround", "rint", "lrint", "llrint", "nearbyint", "floor", "ceil", "trunc")
REC = obj("REC")
MAKE = re.compile(r"boost::make_shared<Osmium::OSM::(Node|Way|Relation)")


def load(ndebug=True):
    return translate("read.cpp", ndebug=ndebug, keep=(r"boost::make_shared<", r"^Osmium::Timestamp::"), also=(FOREACH, STDFN, r"^boost::shared_ptr<", r"^boost::operator[!=]=<") + ITERS)


def num_of(t, kind):
    """value of atoi/atoll/strtol/atof of a text"""
    x = re.match(r"[ \t\n\v\f\r]*[+-]?\d+", t) if kind == "i" else re.match(r"[ \t\n\v\f\r]*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", t)
    return (0 if kind == "i" else 0.0) if x is None else int(x.group()) if kind == "i" else float(x.group())


def iso(t):
    x = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z", t)
    return None if x is None else calendar.timegm(tuple(int(k) for k in x.groups()) + (0, 0, 0))


class Doc(Xml):
    """doc: [("s", name, [(attribute, value)]) or ("e", name)]; parts: numbers of events delivered per buffer"""
    def __init__(self, m, doc, parts=None, unique=True, stop=None):
        Xml.__init__(self, m)
        self.doc, self.unique, self.stop = doc, unique, stop
        self.parts = parts or [len(doc)]
        self.user = self.start = self.end = None
        self.why = None

    def arith(self, ai, st, inst, op, a, b):
        if op in ("fptosi", "fptoui"):
            x = self.real(a)
            return None if x is None or x != x or abs(x) > 1 << 62 else I(int(x))
        return Xml.arith(self, ai, st, inst, op, a, b)

    def rounded(self, b, v):
        x = self.real(v)
        if x is None or x != x or abs(x) > 1 << 62:
            return None
        f = b.lstrip("l")
        r = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda x: math.floor(x + 0.5) if x >= 0 else -math.floor(-x + 0.5)}.get(f, round)(x)
        return I(int(r)) if b[0] == "l" else ("s", ("fp", float(r)))

    def intr(self, ai, st, inst, name, args):
        x = re.match(r"llvm\.(l*round|l*rint|nearbyint|floor|ceil|trunc|fabs|fmuladd|minnum|maxnum)\.", name)
        if x and x.group(1) in ROUND:
            return self.rounded(x.group(1), args[0])
        if x and x.group(1) == "fabs":
            r = self.real(args[0])
            return None if r is None else ("s", ("fp", abs(r)))
        return Xml.intr(self, ai, st, inst, name, args)

    def call(self, ai, st, inst, name, args):
        full = ai.m.callee(inst) or name or ""
        b = strip_templates(ai.m.base(inst) or name or "")
        num = lambda k: self.num(ai, st, args[k]) if k < len(args) else None
        if b in ("rec_kind", "rec_num", "rec_real", "rec_str"):
            w = self.text(ai, st, args[0])
            if b == "rec_kind":
                s = self.ev(st, "kind", w, args[1])
                if w == "final" and not self.unique:
                    # what has been delivered is looked at again
                    for e in [e for e in st.auto if e[0] == "kind" and e[1] in ("node", "way", "relation")]:
                        r = ai.subcall(s, "drv_again_" + e[1], [e[2]], "again")
                        if len(r) != 1 or r[0][0] != "ret":
                            raise Undecided("an object cannot be looked at again")
                        s = r[0][2]
                if self.stop is not None and sum(1 for e in s.auto if e[0] == "kind" and e[1] in ("node", "way", "relation")) == self.stop:
                    return [("throw", "_ZTIN6Osmium7Handler11StopReadingE", s)]
                return [("ret", None, s)]
            v = num(1) if b == "rec_num" else self.real(args[1]) if b == "rec_real" else self.text(ai, st, args[1])
            return [("ret", None, self.ev(st, w, v))]
        if b in ROUND and len(args) == 1:
            r = self.rounded(b, args[0])
            return None if r is None else [("ret", r, st)]
        if b in ("atoi", "atol", "atoll", "strtol", "strtoll", "strtoul", "strtoull", "atof", "strtod", "strtof", "strtold") or b.startswith("__isoc23_strto"):
            t = self.text(ai, st, args[0])
            if t is None or len(args) > 1 and (args[1] != I(0) or len(args) > 2 and num(2) not in (0, 10)):
                return None
            f = b.replace("__isoc23_", "")
            if f in ("atof", "strtod", "strtold"):
                return [("ret", ("s", ("fp", num_of(t, "f"))), st)]
            if f == "strtof":
                return None
            v = num_of(t, "i")
            if f in ("strtoul", "strtoull"):
                v = min(v & ((1 << 64) - 1), (1 << 64) - 1)
            elif f == "atoi":
                v = sgn(v & 0xffffffff, 32)
            else:
                v = max(min(v, (1 << 63) - 1), -(1 << 63))
            return [("ret", I(sgn(v & ((1 << 64) - 1), 64)), st)]
        if "Timestamp::parse_iso" in b:
            t = self.text(ai, st, args[0])
            v = iso(t) if t is not None else None
            return None if v is None else [("ret", I(v), st)]
        if MAKE.search(full):
            k = MAKE.search(full).group(1).lower()
            a = ai.addr(args[0])
            n = sum(1 for e in st.auto if e[0] == "made")
            o = obj("heap%d" % n)
            s = self.ev(st, "made", k)
            more = []
            if len(args) > 1:
                c = st.mem.get(ai.addr(args[1]))
                more = [c if c is not None else I(0)]
            elif k == "way":
                more = [I(0)]
            out = []
            for how, v, e in ai.subcall(s, "drv_mk_" + k, [o] + more, "mk"):
                if how == "ret":
                    ai.clear(e, a[0], a[1], a[1] + 16)
                    e.mem[a], e.mem[(a[0], a[1] + 8)] = o, obj("count%d" % n)
                out.append((how, v if how == "throw" else None, e))
            return out
        if "shared_count::" in full or "sp_counted" in full:
            f = b.rsplit("::", 1)[-1]
            if f == "unique":
                return [("ret", I(int(self.unique)), st)]
            if f == "use_count":
                return [("ret", I(1 if self.unique else 2), st)]
            if f == "swap":
                x, y = ai.addr(args[0]), ai.addr(args[1])
                s = st.copy()
                s.mem[x], s.mem[y] = st.mem.get(y, I(0)), st.mem.get(x, I(0))
                return [("ret", None, s)]
            if f == "empty":
                return None
            s = st.copy()
            a = ai.addr(args[0])
            if f == "shared_count" and len(args) == 1:
                s.mem[a] = I(0)
            elif f == "shared_count" and len(args) == 2 or f == "operator=":
                c = st.mem.get(ai.addr(args[1]))
                if c is not None:
                    s.mem[a] = c
            return [("ret", args[0] if f == "operator=" else None, s)]
        if b == "read":
            n = sum(1 for e in st.auto if e[0] == "read")
            return [("ret", I(1000 if n < len(self.parts) - 1 or n == 0 else 0), self.ev(st, "read"))]
        if b.startswith("XML_"):
            return self.expat(ai, st, inst, b, args)
        return Xml.call(self, ai, st, inst, name, args)

    def expat(self, ai, st, inst, b, args):
        p = obj("parser")
        if b.startswith("XML_ParserCreate"):
            return [("ret", p, st)]
        if b == "XML_SetUserData":
            self.user = args[1]
            return [("ret", None, st)]
        if b in ("XML_SetElementHandler", "XML_SetStartElementHandler", "XML_SetEndElementHandler"):
            if b != "XML_SetEndElementHandler":
                self.start = args[1]
            if b != "XML_SetStartElementHandler":
                self.end = args[-1]
            return [("ret", None, st)]
        if b == "XML_GetBuffer":
            return [("ret", obj("=buffer"), st)]
        if b == "XML_ParserFree":
            return [("ret", None, st)]
        if b in ("XML_ParseBuffer", "XML_Parse"):
            n = sum(1 for e in st.auto if e[0] == "parse")
            at = sum(self.parts[:n])
            evs = self.doc[at:at + self.parts[n]] if n < len(self.parts) else []
            st = self.ev(st, "parse")
            states, thrown = [st], []
            for k, e in enumerate(evs):
                nxt = []
                for s in states:
                    for how, v, r in self.deliver(ai, s, at + k, e):
                        if how == "ret":
                            nxt.append(r)
                        else:
                            thrown.append(("throw", v, r))
                states = nxt
                if len(states) + len(thrown) > 1 and not (len(thrown) == 1 and not states):
                    raise Undecided("several outcomes of one event")
            return [("ret", I(1), s) for s in states] + thrown
        if b == "XML_GetErrorCode":
            return [("ret", I(2), st)]
        return None

    def deliver(self, ai, st, k, e):
        h = self.start if e[0] == "s" else self.end
        if h is None or h[0] != "fn" or self.user is None:
            raise AnalysisBroken("XML_ParseBuffer is called without element handlers that can be identified")
        s = st.copy()
        s.auto = (s.auto or ()) + (("event", k),)
        a = [self.user, ("s", ("chr", e[1], 0))]
        if e[0] == "s":
            at = obj("attrs%d" % k)
            n = 0
            for x, y in e[2]:
                s.mem[(at, 8 * n)], s.mem[(at, 8 * n + 8)] = ("s", ("chr", x, 0)), ("s", ("chr", y, 0))
                n += 2
            s.mem[(at, 8 * n)] = I(0)
            a.append(at)
        return ai.subcall(s, h[1], a, "ev%d" % k)

    def access(self, ai, st, inst, ptr, size, write):
        a = ai.addr(ptr)
        if (ptr[0] == "i" and 0 <= ptr[1] < 4096 or a is not None and a[0] == I(0)) and not st.facts:
            self.wrong(inst, "an object that does not exist is accessed")
        if a is not None and a[0][0] == "s" and isinstance(a[0][1], tuple) and a[0][1][0] == "arg" and str(a[0][1][1]).startswith("attrs") and isinstance(a[1], int):
            if a not in st.mem:
                self.wrong(inst, "an attribute behind the last one is read")
        Xml.access(self, ai, st, inst, ptr, size, write)

    def no_havoc(self, ai, st, addr, inst):
        b = ai.m.base(inst) or ""
        return b.startswith(("XML_", "rec_", "read")) or Xml.no_havoc(self, ai, st, addr, inst)


def read(m, w):
    """[(how, kind of exception, events)] of reading the document"""
    r = Run(m, w)
    if r.step("drv_file", FILE, NAME, cells={(NAME, 0): S("x.osm")}) != "ret":
        return None
    out = r.step("drv_xml", FILE, REC)
    if out is None or out == "bad":
        return out if out is None else ("bad", r.broke, r.auto)
    return ("ret", None, r.last) if out == "ret" else ("throw", out[1], r.last)


def bruijn(k, n):
    """a sequence of the numbers below k in which every n of them follow each other in every way"""
    seen, out = set(), [0] * n
    seen.add(tuple(out))
    while True:
        for x in range(k - 1, -1, -1):
            t = tuple(out[len(out) - n + 1:] + [x])
            if t not in seen:
                seen.add(t)
                out.append(x)
                break
        else:
            return out
