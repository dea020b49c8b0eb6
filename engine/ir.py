"""Loading of normalised IR dumps and basic graph services."""
import json, os, subprocess, sys, hashlib, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = os.path.join(REPO, "include")


class AnalysisBroken(Exception):
    """An anchor vanished or the source cannot be translated: no verdict."""


class Undecided(AnalysisBroken):
    """the interpreter gives up on a function (too many states, too much time, an instruction it does not know)"""


def tool():
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run([os.path.join(VERIF, "tool", "build.sh"), out], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("cannot build irdump: " + r.stderr[:2000])
    return out


def sh(cmd):
    r = subprocess.run(cmd, shell=True, capture_output=True, text=True)
    return r.stdout.split()


_flags = None


def flags():
    global _flags
    if _flags is None:
        _flags = ["-std=gnu++17", "-w", "-D_LARGEFILE_SOURCE", "-D_FILE_OFFSET_BITS=64", "-I" + INC,
                  "-I" + os.path.join(VERIF, "drivers")] + \
            sh("geos-config --cflags") + sh("gdal-config --cflags") + sh("xml2-config --cflags")
    return _flags


FOREACH = r"boost::foreach_detail_"
STDFN = r"(^|[ &*>])std::(swap|min|max|move|forward|exchange|as_const|addressof|__addressof)(<|\()"
SHPTR = r"boost::shared_ptr<[^()]*>::(operator->|operator\*|get)\(\) const$"


def translate(driver, ndebug=True, defs=(), keep=(), also=(FOREACH, SHPTR, STDFN), root="^drv_", all_=False, pipe=None, inc=()):
    """Compile /verif/drivers/<driver> against the current tree and return a Module."""
    tmp = tempfile.mkdtemp(prefix="verif-ir-")
    try:
        bc, js = os.path.join(tmp, "a.bc"), os.path.join(tmp, "a.json")
        src = driver if os.path.isabs(driver) else os.path.join(VERIF, "drivers", driver)
        cmd = ["clang++-18"] + ["-I" + os.path.join(VERIF, "drivers", d) for d in inc] + flags() + (["-DNDEBUG"] if ndebug else []) + ["-D" + d for d in defs] + \
            ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-c", src, "-o", bc]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("driver %s does not compile against the current tree:\n%s" % (driver, r.stderr[:3000]))
        cmd = [tool(), bc, js, "--prefix", INC, "--drv", os.path.join(VERIF, "drivers"), "--root", root]
        for k in keep:
            cmd += ["--keep", k]
        for k in also:
            cmd += ["--also", k]
        if all_:
            cmd.append("--all")
        env = dict(os.environ)
        if pipe:
            env["IRDUMP_PIPE"] = pipe
        r = subprocess.run(cmd, capture_output=True, text=True, env=env)
        if r.returncode:
            raise AnalysisBroken("irdump failed: " + r.stderr[:2000])
        return Module(json.load(open(js)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Inst:
    __slots__ = ("id", "op", "d", "blk", "pos", "fn")

    def __init__(self, d, blk, pos, fn):
        self.id, self.op, self.d, self.blk, self.pos, self.fn = d["id"], d["op"], d, blk, pos, fn

    @property
    def ops(self):
        return self.d.get("ops", [])

    @property
    def args(self):
        return self.d.get("args", [])

    @property
    def is_call(self):
        return self.op in ("call", "invoke")

    def __repr__(self):
        return "<%s#%d>" % (self.op, self.id)


_OPS = ["<<=", ">>=", "->*", "<=>", "()", "[]", "<<", ">>", "<=", ">=", "==", "!=", "->", "+=", "-=", "*=", "/=", "%=", "&=",
        "|=", "^=", "&&", "||", "++", "--", "<", ">", "=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", ","]


def op_end(s, j):
    for o in _OPS:
        if s.startswith(o, j):
            return j + len(o)
    return j


def strip_params(dem):
    """'R ns::C<T>::f<U>(A, B) const' -> 'ns::C<T>::f<U>' ; keeps operators."""
    s = dem
    # find the parameter list: first '(' at template depth 0 that is not operator() / (anonymous
    depth = 0
    i = 0
    end = len(s)
    while i < len(s):
        c = s[i]
        if s.startswith("operator", i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            i = op_end(s, i + 8)
            continue
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == "(" and depth == 0:
            if s.startswith("(anonymous namespace)", i):
                i += len("(anonymous namespace)")
                continue
            end = i
            break
        i += 1
    s = s[:end]
    # drop return type: last space at depth 0 (not within operator names / conversion)
    depth = 0
    cut = 0
    k = s.find("operator")
    lim = k if k >= 0 else len(s)
    i = 0
    while i < lim:
        c = s[i]
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        elif c == " " and depth == 0:
            cut = i + 1
        i += 1
    return s[cut:]


def strip_templates(name):
    """Remove template argument lists (keeps operator< etc.)."""
    out, depth, i = [], 0, 0
    while i < len(name):
        if depth == 0 and name.startswith("operator", i) and (i == 0 or not (name[i - 1].isalnum() or name[i - 1] == "_")):
            j = op_end(name, i + 8)
            out.append(name[i:j])
            i = j
            continue
        c = name[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


class Fn:
    def __init__(self, m, d):
        self.m, self.d = m, d
        self.name, self.dem = d["name"], d["dem"]
        self.nargs = len(d["args"])
        self.blocks, self.insts = [], {}
        self.bidx = {}
        for k, b in enumerate(d["blocks"]):
            self.bidx[b["id"]] = k
        for k, b in enumerate(d["blocks"]):
            l = []
            for pos, x in enumerate(b["insts"]):
                i = Inst(x, k, pos, self)
                self.insts[i.id] = i
                l.append(i)
            self.blocks.append(l)
        self.succ = [self._succ(b) for b in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for a, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(a)
        self._dom = self._live = self._users = None
        self._pdom = None

    def _succ(self, b):
        t = b[-1]
        if t.op == "br":
            return [self.bidx[x] for x in t.d["succ"]]
        if t.op == "switch":
            r = [self.bidx[x] for _, x in t.d["cases"]] + [self.bidx[t.d["default"]]]
            return list(dict.fromkeys(r))
        if t.op == "invoke":
            return [self.bidx[t.d["normal"]], self.bidx[t.d["unwind"]]]
        return []

    def calls(self):
        for b in self.blocks:
            for i in b:
                if i.is_call:
                    yield i

    def callee(self, i):
        return self.m.callee(i)

    # dominators -----------------------------------------------------
    def dominators(self):
        if self._dom is not None:
            return self._dom
        n = len(self.blocks)
        order, seen = [], set()

        def dfs(s):
            st = [(s, iter(self.succ[s]))]
            seen.add(s)
            while st:
                v, it = st[-1]
                for w in it:
                    if w not in seen:
                        seen.add(w)
                        st.append((w, iter(self.succ[w])))
                        break
                else:
                    order.append(v)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        num = {b: k for k, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self._dom = idom
        self.rpo = rpo
        return idom

    def dominates(self, a, b):
        idom = self.dominators()
        if b not in idom:
            return True  # unreachable
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    def inst_dominates(self, a, b):
        if a.blk == b.blk:
            return a.pos < b.pos
        return self.dominates(a.blk, b.blk)

    def reachable(self, starts, avoid=()):
        seen, st = set(), list(starts)
        avoid = set(avoid)
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st.extend(self.succ[b])
        return seen

    def users(self):
        if self._users is None:
            u = {}
            for b in self.blocks:
                for i in b:
                    for o in operands(i):
                        if isinstance(o, dict) and "i" in o:
                            u.setdefault(o["i"], []).append(i)
            self._users = u
        return self._users

    def live_in(self):
        """live-in value ids per block (phi uses count at the predecessor's end)."""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use, de, phiuse = [set() for _ in range(n)], [set() for _ in range(n)], [set() for _ in range(n)]
        for k, b in enumerate(self.blocks):
            for i in b:
                if i.op == "phi":
                    for pb, v in i.d["inc"]:
                        if "i" in v:
                            phiuse[self.bidx[pb]].add(v["i"])
                else:
                    for o in operands(i):
                        if "i" in o and o["i"] not in de[k]:
                            use[k].add(o["i"])
                de[k].add(i.id)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for k in range(n - 1, -1, -1):
                out = set(phiuse[k])
                for s in self.succ[k]:
                    out |= live[s] - {i.id for i in self.blocks[s] if i.op == "phi"} | set()
                new = use[k] | (out - de[k]) | {i.id for i in self.blocks[k] if i.op == "phi"}
                if new != live[k]:
                    live[k] = new
                    ch = True
        self._live = live
        return live


def operands(i):
    d = i.d
    if i.op == "phi":
        return [v for _, v in d["inc"]]
    if i.op == "getelementptr":
        if "base" in d:
            return [d["base"]] + [v for v, _ in d["var"]]
    if i.is_call:
        return list(d["args"]) + [d["callee"]]
    return [o for o in d.get("ops", []) if isinstance(o, dict)]


class Module:
    def __init__(self, d):
        self.d = d
        self.strs, self.locs = d["strs"], d["locs"]
        self.globals, self.decls, self.types, self.census = d["globals"], d["decls"], d["types"], d["census"]
        self.fns = {f["name"]: Fn(self, f) for f in d["functions"]}
        self._bn = {}

    def unwritten(self):
        """variables that the translated code only loads from directly and that no other unit can name"""
        r = self.__dict__.get("_unwritten")
        if r is None:
            esc = set()

            def names(o):
                if isinstance(o, dict):
                    if "g" in o:
                        esc.add(o["g"])
                    for v in o.values():
                        names(v)
                elif isinstance(o, list):
                    for v in o:
                        names(v)
            for f in self.fns.values():
                for i in f.insts.values():
                    for o in operands(i):
                        if not (i.op == "load" and "g" in o):
                            names(o)
            for g in self.globals.values():
                names(g.get("init"))
            r = self._unwritten = {n for n in self.globals if n not in esc and (n.startswith("_ZZ") or n.startswith("_ZL") or n.startswith("_ZN12_GLOBAL"))}
        return r

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            raise AnalysisBroken("function %s is not in the translated module" % name)
        return f

    def callee(self, i):
        """demangled full name of the direct callee, or None for indirect calls"""
        c = i.d.get("callee") or {}
        if "fn" in c:
            d = self.decls.get(c["fn"])
            return d["dem"] if d else c["fn"]
        return None

    def base(self, i):
        """callee name without parameters and return type"""
        n = self.callee(i)
        if n is None:
            return None
        b = self._bn.get(n)
        if b is None:
            b = self._bn[n] = strip_params(n)
        return b

    def short(self, i):
        n = self.base(i)
        return strip_templates(n) if n else None

    def loc(self, i):
        """'file:line (function)' of the instruction, innermost inlined location first"""
        l = i.d.get("loc", -1)
        if l is None or l < 0:
            return "?"
        f, line, fn, ia = self.locs[l]
        fname = self.strs[f]
        for pre in (REPO + "/", VERIF + "/"):
            if fname.startswith(pre):
                fname = fname[len(pre):]
        # if the innermost frame is not in the repo, walk outwards
        while not self.strs[f].startswith(INC) and ia >= 0:
            f, line, fn, ia = self.locs[ia]
            fname = self.strs[f]
            if fname.startswith(REPO + "/"):
                fname = fname[len(REPO) + 1:]
        return "%s:%d (%s)" % (fname, line, strip_templates(strip_params(self.strs[fn])))

    def line(self, i):
        return self.loc(i).split(" ")[0]

    def cstr(self, o):
        """C string value of an operand that points to a constant global string, else None"""
        off = 0
        while "gep" in o:
            off += o["off"]
            o = o["gep"]
        if "g" not in o:
            return None
        g = self.globals.get(o["g"])
        if not g or not g["const"]:
            return None
        init = g.get("init", {})
        if "strhex" in init:
            b = bytes.fromhex(init["strhex"])[off:]
            return b.split(b"\0")[0].decode("latin1")
        if "zero" in init:
            return ""
        return None

    def typeinfo_bases(self, name):
        """transitive bases (typeinfo symbol names) of a typeinfo global"""
        out, todo = set(), [name]
        while todo:
            n = todo.pop()
            if n in out:
                continue
            out.add(n)
            if n in STD_BASES:
                todo += STD_BASES[n]
            g = self.globals.get(n)
            if g and "init" in g:
                for o in flat(g["init"]):
                    if "g" in o and o["g"].startswith("_ZTI"):
                        todo.append(o["g"])
        out.discard(name)
        return out


STD_BASES = {"_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
             "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
             "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt9bad_alloc": ["_ZTISt9exception"],
             "_ZTISt11range_error": ["_ZTISt13runtime_error"], "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
             "_ZTISt12domain_error": ["_ZTISt11logic_error"], "_ZTISt12system_error": ["_ZTISt13runtime_error"]}


def flat(o):
    if isinstance(o, dict):
        if "arr" in o:
            for x in o["arr"]:
                yield from flat(x)
        elif "gep" in o:
            yield from flat(o["gep"])
        else:
            yield o


def _loops(self):
    """natural loops: list of (header block, set of blocks), outermost first"""
    if getattr(self, "_lp", None) is None:
        by = {}
        self.dominators()
        for a in self._dom:
            for s in self.succ[a]:
                if s in self._dom and self.dominates(s, a):
                    body = by.setdefault(s, {s})
                    st = [a]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.pred[x] if p in self._dom)
        self._lp = sorted(by.items(), key=lambda x: -len(x[1]))
    return self._lp


Fn.loops = _loops
