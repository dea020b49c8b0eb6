"""Shared by C04, C09 and C10: the XML writer over a model of the library's text writer. Every call of it is an event with its
constant texts and formatted numbers; files and processes are descriptors. At most one of the calls named in fails fails."""
import re
from ir import translate, FOREACH, STDFN, strip_templates
from absint import I
from scenario import obj
from seqs import ITERS
from strings import S
from orders import sgn
from rules.c19 import Stream
from rules.steps import Run

X, FILE, NAME, META, T1, T2 = obj("X"), obj("FILE"), obj("NAME"), obj("META"), obj("T1"), obj("T2")
FMT = re.compile(r"%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|j|z|t|L|q)?([diouxXfFeEgGscp%])")
W = "xmlTextWriter"
FALLIBLE = ("SetIndent", "SetIndentString", "StartDocument", "EndDocument", "StartElement", "EndElement", "FullEndElement", "WriteAttribute", "WriteFormatAttribute", "WriteElement", "WriteFormatElement",
            "StartAttribute", "EndAttribute", "WriteString", "WriteFormatString", "WriteRaw", "WriteFormatRaw", "Flush", "StartComment", "EndComment", "WriteComment", "WriteRawLen")


def load():
    return translate("output_xml.cpp", keep=(r"^Osmium::Timestamp::",), also=(FOREACH, STDFN, r"^boost::shared_ptr<") + ITERS)


class Xml(Stream):
    fails = ()

    def ev(self, st, *e):
        return self.event(st, e)[0][2]

    def fail(self, st, what, where):
        if not (what in self.fails or "*" in self.fails) or any(x[0] == "fail" for x in st.auto or ()):
            return None
        s = self.ev(st, "fail", what, where)
        s.mem[(obj("errno"), 0)] = I(5)
        return s

    def format(self, ai, st, f, args):
        """parts of a formatted text, or None"""
        out, k, at = [], 0, 0
        while True:
            x = FMT.search(f, at)
            if x is None:
                if "%" in f[at:]:
                    return None
                out.append(f[at:])
                break
            out.append(f[at:x.start()])
            at = x.end()
            flags, width, prec, ln, c = x.groups()
            if c == "%":
                out.append("%")
                continue
            if k >= len(args):
                return ("format", f)
            v = args[k]
            k += 1
            if c in "di" or c in "uxX":
                n = self.num(ai, st, v)
                if n is None:
                    return None
                w = 64 if ln in ("l", "ll", "j", "z", "t", "q") else 32
                n = sgn(n, w) if c in "di" else n & ((1 << w) - 1)
                out.append(("%" + flags + width + ("." + prec if prec else "") + c.replace("i", "d").replace("u", "d")) % n)
            elif c == "s":
                t = self.text(ai, st, v)
                if t is None:
                    return None
                out.append(t[:int(prec)] if prec else t)
            elif c in "fF":
                out.append(("f", int(prec) if prec else 6, v))
            elif c == "c":
                n = self.num(ai, st, v)
                if n is None:
                    return None
                out.append(chr(n & 255))
            else:
                out.append((c, int(prec) if prec else 6, v))
        r = []
        for p in out:
            if p == "":
                continue
            if isinstance(p, str) and r and isinstance(r[-1], str):
                r[-1] += p
            else:
                r.append(p)
        return tuple(r)

    def call(self, ai, st, inst, name, args):
        full = ai.m.callee(inst) or name or ""
        b = strip_templates(ai.m.base(inst) or name or "")
        where = ai.m.loc(inst)
        ret = lambda v, s, what, bad: [("ret", v, s)] + ([("ret", bad, f)] if (f := self.fail(st, what, where)) is not None else [])
        if b.startswith(W):
            f = b[len(W):]
            s = self.ev(st, "x", f) if not args else st
            if st.mem.get((args[0], "live")) != I(1):
                self.wrong(inst, "%s with a writer that %s" % (b, "was freed" if st.mem.get((args[0], "live")) == I(0) else "does not exist"))
            t = lambda k: self.text(ai, st, args[k]) if k < len(args) else None
            one = lambda x: None if x is None else (x,) if x else ()
            if f in ("SetIndent", "SetIndentString", "SetQuoteChar"):
                e = None
            elif f == "StartDocument":
                e = ("doc", None if args[2] == I(0) else t(2))
            elif f == "EndDocument":
                e = ("enddoc",)
            elif f == "StartElement":
                e = ("start", t(1))
            elif f in ("EndElement", "FullEndElement"):
                e = ("end",)
            elif f == "WriteAttribute":
                e = ("attr", t(1), None if args[2] == I(0) else one(t(2)), args[2] == I(0))
            elif f == "WriteFormatAttribute":
                p = t(2)
                e = ("attr", t(1), None if p is None else self.format(ai, st, p, args[3:]), False)
            elif f == "StartAttribute":
                e = ("startattr", t(1))
            elif f == "EndAttribute":
                e = ("endattr",)
            elif f == "WriteString":
                e = ("string", one(t(1)))
            elif f == "WriteFormatString":
                e = ("string", None if t(1) is None else self.format(ai, st, t(1), args[2:]))
            elif f in ("WriteElement",):
                e = ("element", t(1), one(t(2)) if args[2] != I(0) else ())
            elif f == "WriteFormatElement":
                e = ("element", t(1), None if t(2) is None else self.format(ai, st, t(2), args[3:]))
            elif f in ("WriteComment",):
                e = ("comment",)
            elif f.startswith("Write") and "Raw" in f:
                e = ("raw", t(1))
            elif f == "Flush":
                n = 0
                for x in reversed(st.auto or ()):
                    if x[0] == "flush":
                        n += 1
                    elif x[0] != "fail":
                        break
                s = self.ev(st, "flush")
                s.mem[(args[0], "left")] = I(int(n < 2))
                return ret(I(4000 if n < 2 else 0), s, "Flush", I(-1))
            else:
                e = ("?", f)
            s = self.ev(st, *e) if e else st
            return ret(I(9), s, f, I(-1))
        if b == "xmlOutputBufferCreateFd":
            k = sum(1 for x in st.auto if x[0] == "buffer")
            h, s = obj("buf%d" % k), self.ev(st, "buffer", self.num(ai, st, args[0]))
            s.mem[(h, "live")] = I(1)
            return ret(h, s, b, I(0))
        if b == "xmlNewTextWriter":
            k = sum(1 for x in st.auto if x[0] == "writer")
            if args[0] == I(0):
                return [("ret", I(0), st)]
            h, s = obj("xw%d" % k), self.ev(st, "writer")
            s.mem[(h, "live")], s.mem[(h, "buf")] = I(1), args[0]
            return ret(h, s, b, I(0))
        if b in ("xmlFreeTextWriter", "xmlOutputBufferClose"):
            h = args[0]
            if h == I(0):
                return [("ret", None if b.startswith("xmlF") else I(-1), st)]
            if st.mem.get((h, "live")) != I(1):
                self.wrong(inst, "%s of an object that %s" % (b, "was freed before" if st.mem.get((h, "live")) == I(0) else "does not exist"))
            s = self.ev(st, "free", b)
            s.mem[(h, "live")] = I(0)
            q = st.mem.get((h, "buf"))
            if q is not None:
                s.mem[(q, "live")] = I(0)
            return [("ret", None if b.startswith("xmlF") else I(0), s)]
        r = self.system(ai, st, inst, b, args, where)
        if r is not None:
            return r
        if "Timestamp::to_iso" in b and len(args) == 2:
            n = self.num(ai, st, args[1])
            return [("ret", None, self.put(ai, st, args[0], None if n is None else "<iso %d>" % n))]
        if "shared_count::" in b or "sp_assert" in b:
            return [("ret", None, st)]
        return Stream.call(self, ai, st, inst, name, args)

    def system(self, ai, st, inst, b, args, where):
        num = lambda k: self.num(ai, st, args[k]) if k < len(args) else None
        if b == "__errno_location":
            return [("ret", obj("errno"), st)]
        if b in ("open", "open64", "creat"):
            f = 17 + sum(1 for x in st.auto if x[0] == "open")
            s = self.ev(st, "open", self.text(ai, st, args[0]), f)
            s.mem[(obj("fd"), f)] = I(1)
            return [("ret", I(f), s)] + ([("ret", I(-1), x)] if (x := self.fail(st, "open", where)) is not None else [])
        if b == "close":
            f = num(0)
            if f is None:
                return None
            if f > 2 and st.mem.get((obj("fd"), f)) != I(1):
                self.wrong(inst, "close of a descriptor that %s" % ("was closed before" if st.mem.get((obj("fd"), f)) == I(0) else "was not opened"))
            s = self.ev(st, "close", f)
            s.mem[(obj("fd"), f)] = I(0)
            return [("ret", I(0), s)] + ([("ret", I(-1), x)] if (x := self.fail(s, "close", where)) is not None else [])
        if b == "pipe":
            a = ai.addr(args[0])
            f = 40 + 2 * sum(1 for x in st.auto if x[0] == "pipe")
            s = self.ev(st, "pipe", f)
            s.mem[a], s.mem[(a[0], a[1] + 4)] = I(f), I(f + 1)
            s.mem[(obj("fd"), f)], s.mem[(obj("fd"), f + 1)] = I(1), I(1)
            return [("ret", I(0), s)] + ([("ret", I(-1), x)] if (x := self.fail(st, "pipe", where)) is not None else [])
        if b == "fork":
            return [("ret", I(4711), self.ev(st, "fork"))] + ([("ret", I(-1), x)] if (x := self.fail(st, "fork", where)) is not None else [])
        if b in ("fcntl", "fcntl64"):
            return [("ret", I(0), st)]
        if b == "waitpid":
            a = ai.addr(args[1])
            s = self.ev(st, "wait", num(0))
            if a is None or args[1] == I(0):
                return None
            s.mem[a] = I(0)
            out = [("ret", I(4711), s)]
            for what, status, v in (("helper", 0x100, 4711), ("helper killed", 9, 4711), ("helper not started", 0x7f00, 4711), ("helper dumped", 0x8b, 4711), ("wait", None, -1)):
                x = self.fail(s, what, where)
                if x is not None:
                    if status is not None:
                        x.mem[a] = I(status)
                    x.mem[(obj("errno"), 0)] = I(10)
                    out.append(("ret", I(v), x))
            return out
        return None

    def no_havoc(self, ai, st, addr, inst):
        return (ai.m.base(inst) or "").startswith(("xml", "std::runtime_error", "__cxa", "std::length_error", "std::range_error")) or Stream.no_havoc(self, ai, st, addr, inst)


def chars(t):
    return ("s", ("chr", t, 0))


class Writer(Run):
    """a file that is written"""
    def open(self, filename):
        return self.step("drv_file", FILE, NAME, cells={(NAME, 0): S(filename)}) == "ret" and self.step("drv_new", X, FILE) == "ret"

    def make(self, name, kind, id=1, version=1, changeset=0, timestamp=0, uid=-1, user="", visible=True, pos=None, tags=(), nodes=(), members=()):
        """an object called name with a pointer to it; False if it cannot be built"""
        o = obj(name)
        cells = {(obj("ptr." + name), 0): o}
        ok = [self.step("drv_new_" + kind, o, I(id), I(sgn(version, 32)), I(changeset), I(timestamp), I(uid), chars(user), I(int(visible)), cells=cells)]
        if pos is not None:
            ok.append(self.step("drv_set_pos", o, I(pos[0]), I(pos[1])))
        for k, v in tags:
            ok.append(self.step("drv_tag", o, chars(k), chars(v)))
        for r in nodes:
            ok.append(self.step("drv_nd", o, I(r)))
        for t, r, role in members:
            ok.append(self.step("drv_member", o, I(ord(t)), I(r), chars(role)))
        return all(x == "ret" for x in ok)

    def copy(self):
        r = Writer(self.m, self.w)
        r.mem, r.auto = dict(self.mem), self.auto
        return r
