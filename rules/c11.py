"""Opening and closing a file is interpreted abstractly with the system calls as events on a model of the descriptor tables of
both processes: every path of the child up to the start of the program, every path of the parent up to the return or the
exception, and closing with every kind of exit status. No process is started."""
from ir import translate, AnalysisBroken
from absint import I, AbsInt, St
from scenario import obj
from strings import Strings, S
from rules.handlers import site
from rules.c12 import Names

F, G, N = obj("F"), obj("G"), obj("N")
PID = 4711
ENDS = ("_exit", "_Exit", "abort", "quick_exit", "__builtin_trap")
STATUS = {"0": 0, "exit 1": 0x100, "exit 127": 0x7f00, "exit 255": 0xff00, "killed": 9, "dumped core": 0x8b, "terminated": 15}


class Table:
    """descriptors of a process after the events of a path"""
    def __init__(self, pipe, auto):
        top = max(pipe) + 2
        self.t = {f: ("other", False) for f in range(top) if f not in pipe}
        self.child = self.forked = False
        for e in auto:
            k = e[0]
            if k == "pipe":
                self.t[pipe[0]], self.t[pipe[1]] = ("r", e[1]), ("w", e[1])
            elif k == "fork":
                self.forked, self.child = True, e[1] == "child"
            elif k == "close":
                self.t.pop(e[1], None)
            elif k == "dup2":
                if e[1] in self.t and e[1] != e[2]:
                    self.t[e[2]] = (self.t[e[1]][0], e[3])
            elif k == "dup":
                if e[1] in self.t:
                    self.t[e[2]] = (self.t[e[1]][0], e[3])
            elif k == "cloexec":
                if e[1] in self.t:
                    self.t[e[1]] = (self.t[e[1]][0], e[2])
            elif k == "open":
                self.t[e[2]] = ("file:" + e[1], e[3])

    def free(self, low=0):
        f = low
        while f in self.t:
            f += 1
        return f


class Procs(Strings):
    def __init__(self, m, pipe, status="0", waits=None, badclose=False):
        Strings.__init__(self, m)
        self.pipe, self.status, self.badclose = pipe, status, badclose
        self.unclear = set()
        self.memo, self.stopped = {}, set()

    def table(self, st):
        t = self.memo.get(st.auto)
        if t is None:
            t = self.memo[st.auto] = Table(self.pipe, st.auto or ())
        return t

    def ev(self, st, *e):
        return self.event(st, e)[0][2]

    def exec_args(self, ai, st, base, args):
        if base in ("execv", "execvp", "execve", "execvpe"):
            a, out, k = ai.addr(args[1]), [], 0
            while a and k < 32:
                v = st.mem.get((a[0], a[1] + 8 * k))
                if v is None:
                    return None
                if v == I(0):
                    return [self.text(ai, st, args[0])] + out
                out.append(self.text(ai, st, v))
                k += 1
            return None
        out = []
        for a in args:
            if a == I(0):
                break
            out.append(self.text(ai, st, a))
        else:
            return None
        return out

    def call(self, ai, st, inst, name, args):
        b = ai.m.base(inst) or ""
        c = lambda k: self.num(ai, st, args[k]) if k < len(args) else None
        if b in ("pipe", "pipe2"):
            a = ai.addr(args[0])
            if any(e[0] == "pipe" for e in st.auto):
                self.unclear.add("a second pipe")
                return [("stop", None, st)]
            n = self.ev(st, "pipe", b == "pipe2" and bool((c(1) or 0) & 0o2000000))
            n.mem[a], n.mem[(a[0], a[1] + 4)] = I(self.pipe[0]), I(self.pipe[1])
            return [("ret", I(0), n), ("ret", I(-1), self.ev(st, "nopipe"))]
        if b in ("fork", "vfork"):
            return [("ret", I(0), self.ev(st, "fork", "child")), ("ret", I(PID), self.ev(st, "fork", "parent")), ("ret", I(-1), self.ev(st, "nofork"))]
        if b.startswith("exec") and b[4:] in ("l", "lp", "v", "vp", "ve", "vpe", "le"):
            x = self.exec_args(ai, st, b, args)
            t = self.table(st)
            held = tuple(sorted((f, w) for f, (w, ce) in t.t.items() if not ce and (w != "other")))
            return [("ret", I(-1), self.ev(st, "exec", None if x is None else tuple(x), held))]
        if b in ENDS:
            n = self.ev(st, "end")
            self.stopped.add(n.auto)
            return [("stop", None, n)]
        if b in ("exit", "std::exit", "pthread_exit"):
            n = self.ev(st, "exit")
            self.stopped.add(n.auto)
            return [("stop", None, n)]
        if b in ("open", "open64", "openat", "creat"):
            k = 1 if b == "openat" else 0
            p = self.text(ai, st, args[k])
            fl = c(k + 1) if b != "creat" else 0
            if p is None:
                self.unclear.add("the path given to open")
                p = "?"
            f = self.table(st).free()
            out = [("ret", I(f), self.ev(st, "open", p, f, bool((fl or 0) & 0o2000000)))]
            if p != "/dev/null":
                out.append(("ret", I(-1), self.ev(st, "noopen")))
            return out
        if b in ("close",):
            f = c(0)
            if f is None:
                self.unclear.add("the descriptor given to close")
                return None
            if f < 0:
                return [("ret", I(-1), st)]
            n = self.ev(st, "close", f) if f in self.table(st).t or not self.table(st).child else st
            out = [("ret", I(0), n)]
            if self.badclose and not self.table(st).child and any(e[0] == "closing" for e in st.auto):
                out.append(("ret", I(-1), n))
            return out
        if b == "close_range":
            lo, hi, fl = c(0), c(1), c(2)
            if lo is None or hi is None:
                self.unclear.add("the descriptors given to close_range")
                return None
            n = st
            for f in sorted(self.table(st).t):
                if lo <= f <= (hi & 0xffffffff):
                    n = self.ev(n, "close", f) if not (fl or 0) & 4 else self.ev(n, "cloexec", f, True)
            return [("ret", I(0), n)]
        if b == "closefrom":
            n = st
            for f in sorted(self.table(st).t):
                if c(0) is not None and c(0) <= f:
                    n = self.ev(n, "close", f)
            return [("ret", None, n)]
        if b in ("dup2", "dup3"):
            x, y = c(0), c(1)
            if x is None or y is None:
                self.unclear.add("the descriptors given to dup2")
                return None
            if x not in self.table(st).t:
                return [("ret", I(-1), st)]
            return [("ret", I(y), self.ev(st, "dup2", x, y, b == "dup3" and bool(c(2) or 0))), ("ret", I(-1), st)]
        if b == "dup":
            f = self.table(st).free()
            return [("ret", I(f), self.ev(st, "dup", c(0), f, False))]
        if b in ("fcntl", "fcntl64"):
            f, cmd, arg = c(0), c(1), c(2)
            if f is None or cmd is None:
                self.unclear.add("the descriptor given to fcntl")
                return None
            if cmd == 2:
                return [("ret", I(0), st if arg is None else self.ev(st, "cloexec", f, bool(arg & 1)))]
            if cmd == 1:
                t = self.table(st).t.get(f)
                return [("ret", I(int(t[1]) if t else -1), st)]
            if cmd in (0, 1030):
                g = self.table(st).free(arg or 0)
                return [("ret", I(g), self.ev(st, "dup", f, g, cmd == 1030))]
            return [("ret", I(0), st)]
        if b in ("waitpid", "wait", "wait4"):
            who = -1 if b == "wait" else c(0)
            opt = 0 if b == "wait" else c(2)
            at = args[0 if b == "wait" else 1]
            n = self.ev(st, "wait", who, opt)
            n2 = n.copy()
            if at != I(0):
                a = ai.addr(at)
                if a is None:
                    self.unclear.add("the status of the child")
                else:
                    n2.mem[a] = I(STATUS[self.status])
            out = [("ret", I(PID), n2)]
            if not any(e[0] == "nowait" for e in st.auto):
                out.append(("ret", I(-1), self.ev(n, "nowait")))
            if opt is None or opt & 1:
                out.append(("ret", I(0), n))
            return out
        if b in ("sysconf", "getdtablesize", "__sysconf"):
            return [("ret", I(max(self.pipe) + 4), st)]
        if b in ("posix_spawn", "posix_spawnp", "popen", "system", "clone", "pclose"):
            self.unclear.add(b)
            return None
        return Strings.call(self, ai, st, inst, name, args)


def proceed(m, w, states, fn, args, cells={}):
    """[(how, state)] after one more call"""
    out = {}
    for s in states:
        t = St()
        t.mem = dict(s.mem)
        t.mem.update(cells)
        t.facts = dict(s.facts)
        t.auto, t.trace = s.auto, None
        ai = AbsInt(m, m.fn(fn), w, name="c%d" % len(s.auto), args=args)
        ai.maxstates = 60000
        for how, kind, e, inst in ai.run(t):
            e.mem = {k: v for k, v in e.mem.items() if k[0][0] != "alloca"}
            out[(how, frozenset(e.mem.items()), e.auto)] = (how, e)
    res = list(out.values())
    for a in w.stopped:
        t = St()
        t.auto = a
        res.append(("stop", t))
    w.stopped = set()
    return res


def mark(states, *ev):
    for s in states:
        s.auto = s.auto + (ev,)
    return states


# number of the pipe's ends: few descriptors open, many, standard input or output closed, holes in the table
PIPES = [(3, 4), (0, 1), (0, 3), (1, 3), (3, 9), (31, 32), (30, 31), (32, 33), (40, 41), (200, 201)]


def run(ctx):
    ctx.rules = ["the child keeps a copy of the parent's end of the pipe", "the child goes on running the library", "the file name is not one argument", "the parent keeps the child's end, or loses its own",
                 "closing waits for the child before the pipe is closed, for another process, twice or not at all", "an abnormal or non-zero exit is not reported"]
    ctx.assumptions = ["system calls behave as POSIX says", "the pipes examined stand for all numbers descriptors can have", "file names reach the helper only through the strings given to exec"]
    m = translate("osmfile.cpp")
    n = Names(ctx, m)
    enc = {x: v for v, x in n.encs.items()}
    where = site(m, "drv_open_in")
    cases = [("in", "a dir/x y.osm.gz", "XMLgz"), ("in", "-x.osm.bz2", "XMLbz2"), ("in", "http://h/a b?c;d", "XML"), ("in", "https://h/x", "XML"), ("out", "a dir/x y.osm.gz", "XMLgz"), ("out", "x.osm.bz2", "XMLbz2")]
    for pipe in (PIPES if not ctx.thorough else PIPES + [(a, b) for a in range(0, 6) for b in range(a + 1, 7)] + [(1023, 1024)]):
        for way, fname, e in cases:
            if pipe not in ((3, 4), (40, 41)) and fname not in ("a dir/x y.osm.gz",):
                continue
            w = Procs(m, pipe)
            what = "opening '%s' for %sput" % (fname, way)
            fn = "drv_open_" + way
            pe, ce = (pipe[0], pipe[1]) if way == "in" else (pipe[1], pipe[0])
            end = {pipe[0]: "r", pipe[1]: "w"}[pe]          # the parent's end
            own = "w" if end == "r" else "r"
            s0 = St()
            s0.mem, s0.auto = dict(n.mem), ()
            st = [s for how, s in proceed(m, w, [s0], "drv_new", [F, N], {(N, 0): S(fname)}) if how == "ret"]
            st = [s for how, s in proceed(m, w, st, "drv_set_enc", [F, enc[e]]) if how == "ret"]
            res = proceed(m, w, st, fn, [F])
            ctx.count("paths of opening", len(res))
            if w.unclear:
                for x in w.unclear:
                    ctx.count("undecided: " + x)
                continue
            if not any(x[0] == "fork" for _, s in res for x in s.auto):
                ctx.count("undecided: no helper process")
                continue
            opened = []
            for how, s in res:
                t = Table(pipe, s.auto)
                seq = s.auto
                if t.child:
                    for x in seq:
                        if x[0] != "exec":
                            continue
                        ctx.count("program starts")
                        argv, held = x[1], dict(x[2])
                        target = 1 if way == "in" else 0
                        ctx.require(held.get(target) == own, "pipe:not connected", "%s with pipe %s: the standard %s of the helper is not the pipe (%s)" % (what, pipe, "output" if target else "input", where))
                        ctx.require(end not in held.values(), "pipe:inherited", "%s with pipe %s: the helper keeps a copy of the end of the pipe that belongs to the parent (%s)" % (what, pipe, where))
                        if argv is None or None in argv:
                            ctx.count("undecided: arguments of the program")
                            continue
                        named = [a for a in argv[1:] if fname in a]
                        if way == "in":
                            ctx.require(named == [fname], "argument", "%s: the helper is started as %s, in which the file name is not one argument (%s)" % (what, list(argv), where))
                        else:
                            ctx.require(held.get(1) == "file:" + fname or named == [fname], "argument:out", "%s: the helper is started as %s without the file as its output (%s)" % (what, list(argv), where))
                            ctx.require(named in ([], [fname]), "argument", "%s: the helper is started as %s, in which the file name is not one argument (%s)" % (what, list(argv), where))
                    ctx.require(how == "stop" and seq[-1] == ("end",), "child:runs on", "%s: if the program cannot be started the child %s instead of ending at once (%s)" % (
                        what, {"ret": "returns to the caller", "throw": "throws an exception"}.get(how, "runs exit handlers"), where))
                    continue
                ctx.count("paths of the parent")
                left = [f for f, (k, _) in t.t.items() if k in ("r", "w")]
                if any(x[0] in ("nopipe", "nofork") for x in seq):
                    ctx.require(how == "throw", "failure:accepted", "%s succeeds although no %s could be created (%s)" % (what, "pipe" if any(x[0] == "nopipe" for x in seq) else "process", where))
                    ctx.require(not left, "failure:pipe kept", "%s fails because no process can be created but leaves descriptors %s of the pipe open (%s)" % (what, left, where))
                    continue
                if how != "ret":
                    ctx.count("undecided: exception in the parent")
                    continue
                v = n.value("drv_get_fd", [F], s.mem)
                ctx.require(ce not in left, "parent:child's end", "%s with pipe %s: the parent does not close the end of the pipe that belongs to the child (%s)" % (what, pipe, where))
                ctx.require(pe in left, "parent:own end", "%s with pipe %s: the parent closes its own end of the pipe (%s)" % (what, pipe, where))
                if v is not None and v[0] == "i":
                    ctx.require(v == I(pe), "parent:descriptor", "%s with pipe %s: the descriptor of the file is %d, not %d (%s)" % (what, pipe, v[1], pe, where))
                opened.append(s)
            if not opened:
                ctx.violation("parent:error", "%s always fails in the parent (%s)" % (what, where))
                continue
            if pipe in ((3, 4), (0, 1)) and e == "XMLgz":
                closing(ctx, m, pipe, pe, opened, what)
    ctx.at_least("program starts", 6)
    ctx.at_least("paths of closing", 20)


def closing(ctx, m, pipe, pe, opened, what):
    where = site(m, "drv_close")

    def waits(seq):
        return [x for x in seq if x[0] == "wait"]

    def fresh(s):
        t = St()
        t.mem, t.facts, t.auto, t.trace = dict(s.mem), dict(s.facts), s.auto, None
        return t
    # a copy does not own the child
    for how in ("drv_copy",):
        w = Procs(m, pipe)
        st = [s for h, s in proceed(m, w, mark([fresh(s) for s in opened], "closing"), how, [G, F]) if h == "ret"]
        for h, s in proceed(m, w, st, "drv_del", [G]):
            seq = s.auto[[x[0] for x in s.auto].index("closing"):]
            ctx.require(not any(x[0] in ("wait", "close") for x in seq), "copy", "destroying a copy of an open file %s (%s)" % ("waits for the child" if waits(seq) else "closes its descriptor", site(m, "drv_copy")))
    for first in ("drv_close", "drv_del", "drv_assign"):
        for status in STATUS:
            w = Procs(m, pipe, status, badclose=True)
            st = mark([fresh(s) for s in opened], "closing")
            if first == "drv_assign":
                st = [s for h, s in proceed(m, w, st, "drv_new", [G, N], {(N, 0): S("other.osm")}) if h == "ret"]
            res = proceed(m, w, st, first, [F, G] if first == "drv_assign" else [F])
            if w.unclear:
                for x in w.unclear:
                    ctx.count("undecided: " + x)
                continue
            for how, s in res:
                ctx.count("paths of closing")
                seq = s.auto[[x[0] for x in s.auto].index("closing"):]
                ww = waits(seq)
                name = {"drv_close": "closing", "drv_del": "destroying", "drv_assign": "assigning to"}[first]
                if not ctx.require(bool(ww), "wait:none", "%s the file after %s does not wait for the child (%s)" % (name, what, where)):
                    continue
                who = [x[1] for x in ww]
                if None in who:
                    ctx.count("undecided: process waited for")
                else:
                    ctx.require(set(who) == {PID}, "wait:who", "%s the file waits for process %s, not for its child (%s)" % (name, who, where))
                failed = any(x[0] == "nowait" for x in seq)
                reaped = len(ww) - (1 if failed else 0)
                ctx.require(reaped <= 1 or ww[0][2] not in (0, None), "wait:twice", "%s the file waits for the child %d times (%s)" % (name, reaped, where))
                if ww[0][2] is not None and ww[0][2] & 1:
                    last = [x for x in seq if x[0] in ("wait", "nowait")]
                    ctx.require(False, "wait:nohang", "%s the file does not wait until the child has ended (%s)" % (name, where))
                before = seq[:seq.index(ww[0])]
                ctx.require(("close", pe) in before, "wait:before close", "%s the file waits for the child before the pipe is closed (%s)" % (name, where))
                if first == "drv_close":
                    if STATUS[status] or failed and reaped < 1:
                        ctx.require(how == "throw", "status:%s" % (status if reaped else "wait fails"), "closing the file does not report that the child %s (%s)" % ("ended with %s" % status if reaped else "could not be waited for", where))
            # again, and destroying
            for again in ("drv_close", "drv_del"):
                if first == "drv_del":
                    break
                w2 = Procs(m, pipe, status)
                for how, s in proceed(m, w2, mark([fresh(s) for h, s in res], "again"), again, [F]):
                    ctx.count("paths of closing")
                    k = [x[0] for x in s.auto].index("again")
                    ctx.require(not waits(s.auto[k:]), "wait:again", "%s a file that was closed waits for the child a second time (%s)" % ({"drv_close": "closing", "drv_del": "destroying"}[again], where))
