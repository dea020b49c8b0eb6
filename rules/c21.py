"""The conversions of timestamps are interpreted abstractly: calls of the C library's calendar functions are events with their
possible outcomes (no calendar date; no match; match with text left over; match), texts are constants or symbols, so that each
path shows which text format, which calendar function and which buffer it uses and what becomes of each outcome. Nothing is
executed."""
import re
from ir import translate, FOREACH, STDFN, AnalysisBroken
from absint import I
from scenario import obj, SHARED
from strings import Strings, S
from rules.handlers import site
from rules.lists import run_fn
from rules.c13 import cell_of

ISO = "%Y-%m-%dT%H:%M:%SZ"
WIDTH = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2, "y": 2, "j": 3, "e": 2, "I": 2, "U": 2, "G": 4, "g": 2, "C": 2, "W": 2, "V": 2, "u": 1, "w": 1, "k": 2, "l": 2}
LOCAL = ("localtime", "localtime_r", "mktime", "timelocal", "ctime", "ctime_r", "asctime_l")
UTC = "U" * 20
TM, LEFT, OUT, O = obj("tm"), obj("left"), obj("out"), obj("O")


def normal(f):
    """a text format with its abbreviations written out"""
    for a, b in (("%F", "%Y-%m-%d"), ("%T", "%H:%M:%S"), ("%R", "%H:%M")):
        f = f.replace(a, b)
    return f


def length(f):
    n, k = 0, 0
    while k < len(f):
        if f[k] == "%":
            if k + 1 >= len(f) or f[k + 1] not in WIDTH:
                return None
            n += WIDTH[f[k + 1]]
            k += 2
        else:
            n, k = n + 1, k + 1
    return n


class Calendar(Strings):
    def __init__(self, m):
        Strings.__init__(self, m)
        self.bad = {}

    def wrong(self, key, what, inst):
        self.bad.setdefault(key, "%s (%s)" % (what, self.m.loc(inst)))

    def room(self, ai, st, v):
        """(bytes from a destination on, name of the string object or None)"""
        if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "chr":
            for e in reversed(st.auto or ()):
                if e[0] == "buffer" and e[2] == len(v[1][1]):
                    return e[2] - v[1][2] + (1 if v[1][1] is not None else 0), e[1]
        a = ai.addr(v)
        if a and a[0][0] == "alloca":
            for b in ai.fn.blocks:
                for i in b:
                    if i.op == "alloca" and ai.k(i) == a[0][1] and "size" in i.d and isinstance(a[1], int):
                        return i.d["size"] - a[1], None
        return None, None

    def call(self, ai, st, inst, name, args):
        b = ai.m.base(inst) or name or ""
        r = self.ret
        if b.startswith("std::__cxx11::basic_string") and re.search(r"::(c_str|data|operator\[\]|begin|front|at)$", re.sub(r"<[^<>]*(<[^<>]*>[^<>]*)*>", "", b)):
            t = self.text(ai, st, args[0])
            if t is not None and set(t) <= {"\0", " "} and t:
                st = self.event(st, ("buffer", ai.addr(args[0]), len(t)))[0][2]
        if b in ("gmtime", "gmtime_r", "localtime", "localtime_r"):
            p = ai.addr(args[0])
            ts = st.mem.get(p) if p else None
            t = TM if not b.endswith("_r") else args[1]
            ok = self.event(st, ("tm", b.split("_")[0], ts))[0][2]
            a = ai.addr(t)
            if a:
                ok.mem[a] = ("s", ("tmof", b.split("_")[0], ts))
            return [("ret", I(0), self.event(st, ("no date",))[0][2]), ("ret", t, ok)]
        if b == "strftime":
            if args[3] == I(0):
                self.wrong("null", "a timestamp without calendar date is formatted through a null pointer", inst)
                return []
            f, n = self.text(ai, st, args[2]), self.num(ai, st, args[1])
            a = ai.addr(args[3])
            how = st.mem.get(a) if a else None
            room, s = self.room(ai, st, args[0])
            st = self.event(st, ("format", f, n, room, how[1][1:] if how is not None and how[0] == "s" and isinstance(how[1], tuple) and how[1][0] == "tmof" else None))[0][2]
            l = length(normal(f)) if f is not None else None
            if l is None or n is None:
                return None
            k = l if l < n else 0
            if room is not None and n > room:
                self.wrong("buffer", "a text of up to %d bytes is written to a buffer of %d" % (n, room), inst)
                return []
            if s is not None:
                st = self.put(ai, st, ("p", s[0], s[1]), None)
                st.mem[s] = S(UTC[:k].ljust(20, "U")[:k] + "\0" * (room - 1 - k) if k else "\0" * (room - 1))
            else:
                d = ai.addr(args[0])
                if d:
                    ai.clear(st, d[0], d[1], d[1] + n)
                    st.mem[d] = S(UTC[:k])
            return r(I(k), st)
        if b == "strptime":
            f = self.text(ai, st, args[1])
            a = ai.addr(args[2])
            ok = self.event(st, ("parse", f, args[0], a))[0][2]
            if a:
                ok.mem[a] = ("s", ("parsed", args[0]))
            rest = ok.copy()
            rest.mem[(LEFT, 0)] = I(ord("x"))
            rest.auto += (("left over",),)
            full = ok.copy()
            full.mem[(LEFT, 0)] = I(0)
            no = self.event(ok, ("no match",))[0][2]
            return [("ret", I(0), no), ("ret", LEFT, rest), ("ret", LEFT, full)]
        if b in ("timegm", "mktime", "timelocal"):
            a = ai.addr(args[0])
            c = st.mem.get(a) if a else None
            return r(("s", ("time", b, c)), self.event(st, ("time", b))[0][2])
        if b in ("setenv", "putenv", "unsetenv", "tzset"):
            return r(I(0), self.event(st, ("zone",))[0][2])
        return Strings.call(self, ai, st, inst, name, args)

    def access(self, ai, st, inst, ptr, size, write):
        if ptr == I(0) or ptr[0] == "p" and ptr[1] == I(0):
            self.wrong("null", "a timestamp without calendar date is used through a null pointer", inst)

    def loaded(self, ai, st, a, val, size):
        if a[0] == ("i", 0):
            return None
        if val is not None and val[0] == "s" and isinstance(val[1], tuple) and val[1][0] == "parsed":
            return None
        return Strings.loaded(self, ai, st, a, val, size)

    def method(self, ai, st, inst, name, full, args):
        if name == "resize":
            o, n = self.text(ai, st, args[0]), self.num(ai, st, args[1])
            c = self.num(ai, st, args[2]) if len(args) > 2 else 0
            x = None if o is None or n is None or not 0 <= n < 4096 or c is None else o[:n].ljust(n, chr(c & 255))
            return self.ret(None, self.put(ai, st, args[0], x))
        return Strings.method(self, ai, st, inst, name, full, args)


class Check:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m

    def bad(self, w, fn):
        for k, v in w.bad.items():
            self.ctx.require(False, fn + ":" + k, v)

    def format(self, fn, f, what):
        if f is None:
            self.ctx.count("undecided formats")
            return
        self.ctx.count("formats examined")
        if length(normal(f)) is None and normal(f) != ISO:
            self.ctx.count("undecided formats")
            return
        self.ctx.require(normal(f) == ISO, "format:" + what, "timestamps are %s with the format \"%s\" (%s)" % (what, f, site(self.m, fn)))

    def to_text(self, fn, cell):
        """cell: where the timestamp is kept, None: argument"""
        ctx, m = self.ctx, self.m
        for ts in (0, 1, 1350000000, 2 ** 33, -1, -2 ** 40, 2 ** 62):
            w = Calendar(m)
            mem = {} if cell is None else {(O, cell): I(ts), (O, other(m, cell)): I(77)}
            for how, v, kind, e in run_fn(m, w, fn, [OUT, I(ts) if cell is None else O], mem, ()):
                t = w.text(None, e, OUT) if how == "ret" else None
                ev = e.auto or ()
                loc = site(m, fn)
                ctx.count("paths examined")
                if ts == 0:
                    if how == "ret" and t is not None:
                        ctx.require(t == "", fn + ":zero", "the text of a timestamp of zero is not empty (%s)" % loc)
                    else:
                        ctx.count("undecided paths")
                    continue
                tms, fs = [x for x in ev if x[0] == "tm"], [x for x in ev if x[0] == "format"]
                if ("no date",) in ev:
                    ctx.count("timestamps without a date")
                    continue
                if ("zone",) in ev or len(tms) != 1 or len(fs) != 1:
                    ctx.count("undecided paths")
                    if not tms and not fs and t == "" and ts > 0:
                        ctx.require(False, fn + ":empty", "the text of the timestamp %d is empty (%s)" % (ts, loc))
                    continue
                ctx.require(tms[0][1] == "gmtime", fn + ":zone", "the text of a timestamp is computed with %s, in the time zone of the process (%s)" % (tms[0][1], loc))
                if tms[0][2] is not None and tms[0][2][0] == "i":
                    ctx.require(tms[0][2] == I(ts), fn + ":value", "the text of the timestamp %d is computed from %s (%s)" % (ts, tms[0][2][1], loc))
                self.format(fn, fs[0][1], "written")
                l = length(normal(fs[0][1])) if fs[0][1] is not None else None
                if l is not None and fs[0][2] is not None:
                    ctx.require(fs[0][2] > l, fn + ":room", "a text of %d characters does not fit the %d bytes it may use (%s)" % (l, fs[0][2], loc))
                if how == "ret" and t is not None:
                    ctx.require(t == UTC or l != 20, fn + ":text", "the text of a timestamp has %d characters instead of 20 (%s)" % (len(t.rstrip("\0")) if t.rstrip("\0") != UTC else len(t), loc))
                else:
                    ctx.count("undecided paths")
            self.bad(w, fn)

    def to_time(self, fn, cell):
        ctx, m = self.ctx, self.m
        T = obj("=text")
        w = Calendar(m)
        args, mem = ([T], {}) if cell is None else ([O, T], {(O, cell): I(4711)})
        for how, v, kind, e in run_fn(m, w, fn, args, mem, ()):
            ev = e.auto or ()
            loc = site(m, fn)
            ctx.count("paths examined")
            ps = [x for x in ev if x[0] == "parse"]
            times = [x[1] for x in ev if x[0] == "time"]
            if ("zone",) in ev or len(ps) != 1:
                ctx.count("undecided paths")
                continue
            self.format(fn, ps[0][1], "read")
            if ps[0][2] != T:
                ctx.count("undecided paths")
                continue
            got = v if cell is None else e.mem.get((O, cell))
            if ("no match",) in ev or ("left over",) in ev:
                what = "does not match the format" if ("no match",) in ev else "goes on after a timestamp"
                ctx.require(how == "throw", fn + (":no match" if ("no match",) in ev else ":left over"), "a text that %s is accepted as a timestamp (%s)" % (what, loc))
                if cell is not None and how == "throw":
                    ctx.require(got == I(4711), fn + ":unchanged", "a text that %s changes the timestamp (%s)" % (what, loc))
                continue
            if not ctx.require(how == "ret", fn + ":match", "a text that matches the format is refused (%s)" % loc):
                continue
            for x in times:
                ctx.require(x == "timegm", fn + ":zone", "a text is converted with %s, in the time zone of the process (%s)" % (x, loc))
            if got is not None and got[0] == "s" and isinstance(got[1], tuple) and got[1][0] == "time":
                c = got[1][2]
                ctx.require(c is None or c == ("s", ("parsed", T)), fn + ":value", "the timestamp is not computed from what was read (%s)" % loc)
            elif got == I(4711) or got is not None and got[0] == "i":
                ctx.require(False, fn + ":value", "a text that matches the format gives the timestamp %d (%s)" % (got[1], loc))
            else:
                ctx.count("undecided paths")
        self.bad(w, fn)


def other(m, cell):
    a, b = cell_of(m, m.fn("drv_get_timestamp")), cell_of(m, m.fn("drv_get_endtime"))
    return b if cell == a else a


def local(ctx, m):
    for f in m.fns.values():
        calls = [i for i in f.calls()]
        if any((m.base(i) or "") in ("setenv", "putenv") for i in calls):
            continue
        for i in calls:
            if (m.base(i) or "") in LOCAL and "/osmium/" in (m.loc(i) or ""):
                ctx.require(False, "local time", "%s interprets a timestamp in the time zone of the process (%s)" % (m.base(i), m.loc(i)))
        ctx.count("functions searched")


def run(ctx):
    ctx.rules = ["timestamps are formatted and parsed in UTC with the ISO format", "the buffer is as large as announced and as needed", "zero gives an empty text",
                 "a failed conversion to a calendar date is not used", "text that does not match, or goes on, is refused and changes nothing"]
    ctx.assumptions = ["gmtime, timegm, strftime and strptime do what POSIX says", "years have four digits"]
    m = translate("timestamp.cpp", also=(FOREACH, STDFN) + SHARED)
    c = Check(ctx, m)
    t, e = cell_of(m, m.fn("drv_get_timestamp")), cell_of(m, m.fn("drv_get_endtime"))
    if None in (t, e):
        raise AnalysisBroken("the fields of objects cannot be found")
    c.to_text("drv_to_iso", None)
    c.to_text("drv_text", t)
    c.to_text("drv_endtext", e)
    c.to_time("drv_parse_iso", None)
    c.to_time("drv_set", t)
    c.to_time("drv_set_attr", t)
    local(ctx, m)
    ctx.at_least("formats examined", 4)
