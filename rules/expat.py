"""Model of the expat library for the abstract interpreter: XML_ParseBuffer delivers the events of
an arbitrary well-formed document (balanced start/end calls, one root), split over calls anywhere."""
from absint import I, OTHER, AbsInt
from ir import AnalysisBroken

ELEM = ("s", ("arg", "element"))
ATTR = ("s", ("arg", "attrs"))


class XmlPos:
    """where in the document the parser is; immutable"""
    __slots__ = ("cfg",)


class Expat:
    """mixin for Hooks; the automaton must be a tuple whose last component is the parser state
    (data, start handler, end handler, positions) or None"""
    DEPTH = 4
    limit = 6000

    def xml_init(self):
        self.start_names, self.end_names = set(), set()
        self.memo, self.elem, self.inhandler = {}, None, None
        self.closed, self.closed_at, self.changes = set(), None, 0
        self.H, self.conf, self.throws, self.served, self.version = {}, set(), [], set(), 0
        self.events = 0
        self.configs = 0
        self.handlers = set()
        self.cmpsites = set()

    @staticmethod
    def xs(auto):
        return auto[-1]

    @staticmethod
    def setxs(auto, x):
        return auto[:-1] + (x,)

    def pinned(self, st):
        x = st.auto[-1]
        r = set()
        if x is not None and x[0] is not None:
            v = x[0]
            r.add(v[1] if v[0] == "p" else v)
        return r

    def xml_call(self, ai, st, inst, name, args):
        if not name:
            return None
        if name.startswith("XML_"):
            x = st.auto[-1] or (None, None, None, ("b",))
            if name in ("XML_ParserCreate", "XML_ParserCreateNS", "XML_ParserCreate_MM"):
                st.auto = self.setxs(st.auto, (None, None, None, ("b",)))
                v = ai.sy(inst)
                ai.setv(st, inst, v)
                s2 = st.copy()
                ai.refine(st, v, "ne", 0)
                ai.refine(s2, v, "eq", 0)
                return [("ret", v, st), ("ret", I(0), s2)]
            if name == "XML_SetUserData":
                st.auto = self.setxs(st.auto, (args[1],) + x[1:])
                return [("ret", None, st)]
            if name in ("XML_SetElementHandler", "XML_SetStartElementHandler", "XML_SetEndElementHandler"):
                s, e = x[1], x[2]
                if name == "XML_SetElementHandler":
                    s, e = args[1], args[2]
                elif "Start" in name:
                    s = args[1]
                else:
                    e = args[1]
                st.auto = self.setxs(st.auto, (x[0], s, e, x[3]))
                return [("ret", None, st)]
            if name in ("XML_ParseBuffer", "XML_Parse"):
                return self.parse(ai, st, inst, args)
            v = None
            if "ty" in inst.d:
                v = ai.sy(inst)
                ai.setv(st, inst, v)
            return [("ret", v, st)]
        if name in ("strcmp", "strcoll") and (ELEM in args):
            o = [k for k, a in zip(inst.args, args) if a != ELEM]
            c = ai.m.cstr(o[0]) if o else None
            if c is None and o:
                c = self.cstr_val(ai, [a for a in args if a != ELEM][0])
            v = ai.sy(inst)
            ai.setv(st, inst, v)
            if c is None:
                return [("ret", v, st)]
            self.cmpsites.add((ai.fn.name, inst.id))
            (self.start_names if self.inhandler == "start" else self.end_names).add(c)
            return self.name_test(ai, st, v, c)
        return None

    def name_test(self, ai, st, v, c):
        """outcomes of comparing the element name with c; v is 0 exactly if they are equal"""
        x = st.auto[-1]
        how, what = x[4]
        s1, s2 = st.copy(), st
        s1.auto = self.setxs(st.auto, x[:4] + (("=", c),))
        s2.auto = self.setxs(st.auto, x[:4] + ((how, what if how == "=" else what | {c}),))
        ai.refine(s2, v, "ne", 0)
        if how == "=":
            return [("ret", I(0), s1)] if what == c else [("ret", v, s2)]
        if c in what or self.elem == "<other>":
            return [("ret", v, s2)]
        return [("ret", I(0), s1), ("ret", v, s2)]

    @staticmethod
    def cstr_val(ai, v):
        if v[0] == "p" and v[1][0] == "glob":
            g = ai.m.globals.get(v[1][1])
            if g and g["const"] and "strhex" in g.get("init", {}):
                return bytes.fromhex(g["init"]["strhex"])[v[2]:].split(b"\0")[0].decode("latin1")
        return None

    def fold(self, ai, inst, op, n):
        """nesting counters kept in the reader: follow small values exactly"""
        if op not in ("add", "sub") or abs(n) > 2 * self.DEPTH:
            return False
        a = inst.ops[0]
        return "i" in a and ai.fn.insts[a["i"]].op == "load"

    def element_event(self, ai, st, elem, which):
        pass

    def element_done(self, ai, st, elem, which):
        """automata after the handler has returned; elem is ('=', name) or ('?', names it is not)"""
        return [st.auto]

    def event(self, ai, pk, fn, elem, which):
        """run one element handler on the representative of pk; -> (keys after, throws)"""
        key = (pk, elem, which)
        st = self.H[pk]
        r = self.memo.get(key)
        if r is None or r[2] is not st:
            self.events += 1
            self.elem, self.inhandler = elem, which
            x = st.auto[-1]
            self.handlers.add(fn[1])
            s0 = st.copy()
            s0.auto = self.setxs(s0.auto, x[:3] + (None, ("?", frozenset()) if elem in (None, "<other>") else ("=", elem)))
            self.element_event(ai, s0, elem, which)
            out = ai.subcall(s0, fn[1], [x[0], ELEM] + ([ATTR] if which == "start" else []), "ev")
            self.elem = None
            ks = []
            for h, k, s in out:
                e = s.auto[-1][4]
                s.auto = self.setxs(s.auto, s.auto[-1][:4])
                if h == "ret":
                    opts = [e]
                    if which == "start" and e[0] == "?":
                        # the name matters to the end handler: decide it now
                        opts = [("=", n) for n in sorted(self.end_names - e[1])] + [("?", e[1] | self.end_names)]
                    for e in opts:
                        for a in self.element_done(ai, s, e, which):
                            s2 = s.copy()
                            s2.auto = a
                            ks.append((self.intern(ai, s2), e))
                elif h == "throw":
                    self.throws.append((k, s))
            r = self.memo[key] = (list(dict.fromkeys(ks)), None, st)
        return r[0]

    def intern(self, ai, s):
        """the representative state with this projection, joined with s"""
        s = s.copy()
        s.env, s.exc, s.caught, s.trace = {}, None, (), None
        ai.gc(s)
        pk = ai.proj(s)
        o = self.H.get(pk)
        if o is None:
            self.H[pk] = s
        elif o.facts != s.facts or o.mem != s.mem:
            j = ai.join(o, s, "x")
            if j.facts != o.facts or j.mem != o.mem:
                self.H[pk] = j
                self.changes += 1
        return pk

    def parse(self, ai, st, inst, args):
        x = st.auto[-1]
        if x is None or not x[1] or x[1][0] != "fn" or not x[2] or x[2][0] != "fn" or x[0] is None:
            raise AnalysisBroken("XML_ParseBuffer is called without element handlers that can be identified")
        for which, names in ((x[1], self.start_names), (x[2], self.end_names)):
            # names that can be compared with, so that they are told apart from the beginning
            f = ai.m.fns.get(which[1])
            for i in (f.calls() if f else ()):
                if ai.m.base(i) in ("strcmp", "strcoll"):
                    names |= {c for c in (ai.m.cstr(a) for a in i.args) if c is not None}
        pos = x[3]
        base = st.copy()
        base.auto = self.setxs(st.auto, x[:3] + (None,))
        base.keepenv = tuple(st.env.values()) + tuple(st.keepenv)
        pk = self.intern(ai, base)
        for c in ([("b", ())] if pos == ("b",) else pos):
            self.conf.add((c, pk))
        self.closure(ai, x)
        served = (inst.id, frozenset(st.env.items()), st.exc, st.caught, len(self.conf), len(self.throws), self.version)
        if served in self.served:
            return []
        self.served.add(served)
        return self.outcomes(ai, st, inst, args)

    def closure(self, ai, x):
        while True:
            before = (len(self.start_names), len(self.end_names), self.changes)
            if before != self.closed_at:
                self.closed = set()
            done = self.closed
            work = [c for c in self.conf if c not in done]
            if not work:
                break
            while work:
                c = work.pop()
                if c in done:
                    continue
                done.add(c)
                (ph, stack), pk = c
                nxt = []
                if ph == "b" or (ph == "in" and len(stack) < self.DEPTH):
                    for k, e in self.event(ai, pk, x[1], None, "start"):
                        tops = [e[1] if e[0] == "=" and e[1] in self.end_names else "<other>"]
                        nxt += [(("in", stack + (t,)), k) for t in tops]
                if ph == "in" and stack:
                    cfg = ("in", stack[:-1]) if len(stack) > 1 else ("end", ())
                    nxt += [(cfg, k) for k, e in self.event(ai, pk, x[2], stack[-1], "end")]
                for n in nxt:
                    if n not in self.conf:
                        self.conf.add(n)
                        work.append(n)
            if len(self.conf) > 400000:
                raise AnalysisBroken("too many parser configurations")
            self.closed_at = before
            if before == (len(self.start_names), len(self.end_names), self.changes):
                break
            self.version += 1

    def outcomes(self, ai, st, inst, args):
        done = args[-1]
        out = []
        bykey = {}
        for cfg, pk in self.conf:
            bykey.setdefault(pk, set()).add(cfg)
        x = st.auto[-1]

        def fin(s, pos):
            s = s.copy()
            s.env = dict(st.env)
            s.exc, s.caught, s.trace, s.keepenv = st.exc, st.caught, st.trace, st.keepenv
            s.auto = self.setxs(s.auto, x[:3] + (tuple(sorted(pos)),))
            return s
        for pk, cfgs in bykey.items():
            s = self.H[pk]
            a = fin(s, cfgs)
            if ai.assume(a, done, False):
                out.append(("ret", I(1), a))
            e = [c for c in cfgs if c[0] == "end"]
            if e:
                a = fin(s, e)
                if ai.assume(a, done, True):
                    out.append(("ret", I(1), a))
            out.append(("ret", I(0), fin(s, ())))     # not well-formed from here on
        seen = set()
        for k, s in self.throws:
            a = fin(s, ())
            kk = (k, ai.proj(a))
            if kk not in seen:
                seen.add(kk)
                out.append(("throw", k, a))
        return out
