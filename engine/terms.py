"""Symbolic terms of SSA values (no path exploration; loops are cut at phis).

('c', n) ('f', x) ('str', s) ('arg', n) ('glob', name) ('call', name, args, inst) ('load', addr, inst)
('op', opcode, a, b) ('cast', kind, from, to, a) ('phi', inst) ('gep', base, off, ((term, scale), ...))
('alloca', inst) ('cmp', pred, a, b) ('sel', c, a, b) ('any', inst)
"""
from ir import operands, strip_templates


class Terms:
    def __init__(self, m, fn):
        self.m, self.fn = m, fn
        self.cache = {}
        self._stores = None

    def t(self, o):
        if "c" in o:
            return ("c", o["c"])
        if "null" in o or "zero" in o:
            return ("c", 0)
        if "f" in o:
            return ("f", float(o["f"]))
        if "a" in o:
            return ("arg", o["a"])
        if "fn" in o:
            return ("fn", o["fn"])
        if "g" in o:
            s = self.m.cstr(o)
            return ("str", s) if s is not None else ("glob", o["g"])
        if "gep" in o:
            s = self.m.cstr(o)
            if s is not None:
                return ("str", s)
            return gep(self.t(o["gep"]), o["off"], ())
        if "i" in o:
            return self.ti(self.fn.insts[o["i"]])
        return ("any", None)

    def ti(self, i):
        r = self.cache.get(i.id)
        if r is not None:
            return r
        self.cache[i.id] = ("phi", i.id)     # cut cycles
        r = self.build(i)
        self.cache[i.id] = r
        return r

    def build(self, i):
        d, op = i.d, i.op
        if op == "phi":
            vs = {self.t(v) for _, v in d["inc"]}
            vs.discard(("phi", i.id))
            if len(vs) == 1:
                return next(iter(vs))
            return ("phi", i.id)
        if i.is_call:
            n = self.m.base(i)
            if n is None:
                return ("call", None, tuple(self.t(a) for a in [d["callee"]] + i.args), i.id)
            return ("call", strip_templates(n), tuple(self.t(a) for a in i.args), i.id)
        if op == "load":
            a = self.t(d["ops"][0])
            s = self.reaching(i, a)
            if s is not None:
                return s
            return ("load", a, i.id)
        if op == "getelementptr":
            if "base" not in d:
                return ("any", i.id)
            return gep(self.t(d["base"]), d["off"], tuple((self.t(o), sc) for o, sc in d["var"]))
        if op == "alloca":
            return ("alloca", i.id)
        if op in ("icmp", "fcmp"):
            return ("cmp", d["pred"], self.t(d["ops"][0]), self.t(d["ops"][1]))
        if op == "select":
            return ("sel",) + tuple(self.t(o) for o in d["ops"])
        if "from" in d:
            if op in ("bitcast", "addrspacecast", "freeze"):
                return self.t(d["ops"][0])
            return ("cast", op, self.m.strs[d["from"]], self.m.strs[d["ty"]], self.t(d["ops"][0]))
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv"):
            return ("op", op, self.t(d["ops"][0]), self.t(d["ops"][1]))
        if op == "fneg":
            return ("op", "fsub", ("f", 0.0), self.t(d["ops"][0]))
        if op == "extractvalue":
            return ("ev", self.t(d["ops"][0]), tuple(d["idx"]))
        return ("any", i.id)

    def stores(self):
        if self._stores is None:
            self._stores = {}
            for b in self.fn.blocks:
                for i in b:
                    if i.op == "store":
                        self._stores.setdefault(self.t(i.d["ops"][1]), []).append(i)
        return self._stores

    def reaching(self, load, addr):
        """value of the only store that can reach a load of a local or member cell"""
        root = addr
        while root[0] == "gep":
            root = root[1]
        if root[0] not in ("alloca", "arg", "call"):
            return None
        if addr[0] == "gep" and addr[3]:
            return None
        ss = self.stores().get(addr, [])
        dom = [s for s in ss if self.fn.inst_dominates(s, load)]
        if not dom:
            return None
        best = dom[0]
        for s in dom[1:]:
            if self.fn.inst_dominates(best, s):
                best = s
        for s in ss:
            if s is best:
                continue
            # can s reach the load without passing best?
            if s.blk == load.blk and s.pos < load.pos and not (best.blk == load.blk and best.pos > s.pos):
                return None
            if s.blk == best.blk and s.pos < best.pos:
                continue
            if best.blk == load.blk and best.pos < load.pos:
                continue
            r = self.fn.reachable(self.fn.succ[s.blk], avoid=[best.blk])
            if load.blk in r:
                return None
        if root[0] == "alloca":
            ao = addr[2] if addr[0] == "gep" else 0
            for c, po, sz in self.clobbers().get(root[1], ()):
                if not (po <= ao and (sz is None or ao < po + sz)):
                    continue
                # can the call change the cell between the store and the load?
                if c.blk == load.blk and c.pos < load.pos:
                    if best.blk == load.blk and best.pos > c.pos:
                        continue
                    return None
                if c.blk == best.blk and c.pos < best.pos:
                    continue
                if c.blk == best.blk and best.blk == load.blk:
                    continue
                if best.blk == load.blk and best.pos < load.pos:
                    continue
                if load.blk in self.fn.reachable(self.fn.succ[c.blk], avoid=[best.blk]) and c.blk in self.fn.reachable([best.blk]):
                    return None
        return self.t(best.d["ops"][0])

    _clob = None

    def clobbers(self):
        """alloca id -> calls of foreign non-const functions that are given a pointer into it"""
        if self._clob is None:
            self._clob = {}
            for c in self.fn.calls():
                n = self.m.callee(c) or ""
                if n.endswith(") const") or n.startswith("llvm."):
                    continue
                dr = c.d.get("deref", [])
                for k, a in enumerate(c.args):
                    r, o = self.t(a), 0
                    while r[0] == "gep":
                        r, o = r[1], o + r[2]
                    if r[0] == "alloca":
                        self._clob.setdefault(r[1], []).append((c, o, dr[k] if k < len(dr) and dr[k] else None))
        return self._clob



def gep(base, off, var):
    if base[0] == "gep":
        off += base[2]
        var = base[3] + var
        base = base[1]
    v, o = [], off
    for t, sc in var:
        if t[0] == "c":
            o += t[1] * sc
        else:
            v.append((t, sc))
    if o == 0 and not v:
        return base
    return ("gep", base, o, tuple(v))


def nocast(t, keep=()):
    """strip width-changing casts"""
    while t[0] == "cast" and t[1] not in keep:
        t = t[4]
    return t


def show(t, depth=0):
    if depth > 8:
        return "..."
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "f":
        return repr(t[1])
    if k == "str":
        return '"%s"' % t[1]
    if k == "call":
        n = (t[1] or "?").split("::")
        return "%s(%s)" % ("::".join(n[-2:]), ", ".join(show(a, depth + 1) for a in t[2]))
    if k == "op":
        return "(%s %s %s)" % (show(t[2], depth + 1), t[1], show(t[3], depth + 1))
    if k == "cast":
        return "%s:%s(%s)" % (t[1], t[3], show(t[4], depth + 1))
    if k == "load":
        return "*%s" % show(t[1], depth + 1)
    if k == "gep":
        return "%s+%d%s" % (show(t[1], depth + 1), t[2], "".join("+%d*%s" % (sc, show(x, depth + 1)) for x, sc in t[3]))
    if k == "cmp":
        return "(%s %s %s)" % (show(t[2], depth + 1), t[1], show(t[3], depth + 1))
    if k == "sel":
        return "(%s ? %s : %s)" % tuple(show(x, depth + 1) for x in t[1:])
    if k == "ev":
        return "%s.%s" % (show(t[1], depth + 1), ".".join(map(str, t[2])))
    return "%s%s" % (k, "" if len(t) < 2 or t[1] is None else "#%s" % t[1])
