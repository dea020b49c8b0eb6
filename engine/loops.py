"""Does a loop visit every element of a container exactly once, in order?  Decided for iterator loops and counting loops;
other loops are reported as undecided ('?')."""
from terms import nocast, show

BEGIN, END = ("begin", "cbegin"), ("end", "cend")


def last(n):
    return (n or "?").split("::")[-1]


def innermost(fn, blk):
    """innermost loop containing a block, or None"""
    best = None
    for h, body in fn.loops():
        if blk in body and (best is None or len(body) < len(best[1])):
            best = (h, body)
    return best


def ends_in_throw(fn, b, body):
    """does every path from b that does not return to the loop end in an exception or abort?"""
    for x in fn.reachable([b], avoid=body):
        if fn.blocks[x][-1].op == "ret":
            return False
    return True


def exits(fn, body):
    """normal exits: (block, successor)"""
    r = []
    for b in body:
        t = fn.blocks[b][-1]
        for s in fn.succ[b]:
            if s in body:
                continue
            if t.op == "invoke" and s == fn.bidx[t.d["unwind"]]:
                continue
            r.append((b, s))
    return r


def vals(T, a):
    return [T.t(s.d["ops"][0]) for s in T.stores().get(a, [])]


def size_like(t):
    """('size', container) if t is the number of elements of a container"""
    t = nocast(t)
    if t[0] == "call" and t[1] and (last(t[1]) in ("size",) or last(t[1]).endswith("_size")) and t[2]:
        return t[2][0]
    return None


class Cover:
    def __init__(self, kind, status, text, elem=None, container=None):
        self.kind, self.status, self.text, self.elem, self.container = kind, status, text, elem, container

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.status, self.text)


def it_of(T, t):
    """the iterator variable (alloca or phi term) behind a dereference or comparison operand"""
    return nocast(t)


def cond_of(T, fn, b):
    t = fn.blocks[b][-1]
    if t.op != "br" or not t.ops:
        return None
    c = T.t(t.ops[0])
    while c[0] == "cast":
        c = c[4]
    return c


def resolve(T, t, body, fn):
    """values a term can have: follow allocas that are only stored to, and phis"""
    t = nocast(t)
    if t[0] in ("alloca", "gep"):
        v = vals(T, t)
        if v:
            return v
    if t[0] == "load":
        v = vals(T, t[1])
        if v:
            return v
    return [t]


def coverage(m, fn, T, loop):
    """loop: (header, body) -> Cover"""
    h, body = loop
    ex = [(b, s) for b, s in exits(fn, body) if not ends_in_throw(fn, s, body)]
    if not ex:
        return Cover("?", "?", "no normal exit")
    res = None
    for b, s in ex:
        c = cond_of(T, fn, b)
        if c is None:
            return Cover("?", "?", "exit is not a conditional branch")
        pos = fn.bidx[fn.blocks[b][-1].d["succ"][0]] == s      # leaves if the condition is true
        r = one(m, fn, T, h, body, b, c, pos)
        if r is None:
            early = "leaves early if %s" % show(c)
            if res is None:
                res = Cover("?", "?", early)
            else:
                res = Cover(res.kind, "?", early, res.elem, res.container)
            continue
        if res is not None and res.kind != "?" and r.elem != res.elem:
            return Cover("?", "?", "two conditions")
        if res is not None and res.kind == "?":
            r = Cover(r.kind, "bad" if r.status == "bad" else "?", r.text + "; " + res.text, r.elem, r.container)
        res = r
    return res


def one(m, fn, T, h, body, b, c, leave_if):
    latches = [x for x in fn.pred[h] if x in body]
    # -- iterators of class type: operator!=(it, end) / operator==
    if c[0] == "call" and last(c[1]) in ("operator!=", "operator==") and len(c[2]) == 2:
        if (last(c[1]) == "operator==") != leave_if:
            return None
        for it, end in ((c[2][0], c[2][1]), (c[2][1], c[2][0])):
            cell = nocast(it)
            incs = [i for i in fn.calls() if i.blk in body and last(m.short(i)) in ("operator++", "operator+=", "operator--", "operator-=") and i.args and T.t(i.args[0]) == cell]
            if not incs:
                continue
            return judge(m, fn, T, body, latches, cell, [v for s, v in outside(T, fn, body, cell)], end, incs)
    # -- pointers and indices
    if c[0] == "cmp":
        for x, y, swapped in ((c[2], c[3], False), (c[3], c[2], True)):
            p = nocast(x)
            if p[0] != "phi":
                continue
            i = fn.insts[p[1]]
            if i.blk != h:
                continue
            init = [T.t(v) for bb, v in i.d["inc"] if fn.bidx[bb] not in body]
            step = [T.t(v) for bb, v in i.d["inc"] if fn.bidx[bb] in body]
            return counting(m, fn, T, body, p, init, step, y, c[1], swapped, leave_if)
        # boost::foreach and others compare raw pointers kept in memory
    return None


def outside(T, fn, body, cell):
    return [(s, T.t(s.d["ops"][0])) for s in T.stores().get(cell, []) if s.blk not in body]


def judge(m, fn, T, body, latches, cell, init, end, incs):
    ev = resolve(T, end, body, fn)
    cont = None
    if len(init) != 1 or len(ev) != 1:
        return Cover("iter", "?", "several initial or final values", cell)
    a, e = nocast(init[0]), nocast(ev[0])
    why = []
    if a[0] == "call" and last(a[1]) in BEGIN:
        cont = a[2][0] if a[2] else None
    elif a[0] == "call" and last(a[1]) in ("operator+", "next", "operator-", "prev"):
        why.append("it does not start at the first element")
    else:
        return Cover("iter", "?", "unknown start %s" % show(a), cell)
    if e[0] == "call" and last(e[1]) in END:
        if cont is not None and e[2] and not same(e[2][0], cont):
            return Cover("iter", "?", "begin and end of different containers?", cell, cont)
    elif e[0] == "call" and last(e[1]) in ("operator-", "operator+", "prev", "next"):
        why.append("it does not end at the last element")
    else:
        return Cover("iter", "?", "unknown end %s" % show(e), cell, cont)
    if any(last(m.short(i)) != "operator++" for i in incs):
        return Cover("iter", "?", "unknown step", cell, cont)
    for l in latches:
        if not any(fn.dominates(i.blk, l) for i in incs):
            return Cover("iter", "?", "not advanced on every path", cell, cont)
    for i in incs:
        for j in incs:
            if i is not j and (i.blk == j.blk and i.pos < j.pos or i.blk != j.blk and j.blk in fn.reachable([s for s in fn.succ[i.blk]], avoid=[h for h in headers(fn, body)])):
                why.append("it is advanced twice in one round")
    return Cover("iter", "bad" if why else "ok", ", ".join(sorted(set(why))), cell, cont)


def headers(fn, body):
    return [h for h, b in fn.loops() if b == body]


def same(a, b):
    """equal up to the identity of pure getter calls"""
    a, b = nocast(a), nocast(b)
    if a[0] == "call" and b[0] == "call":
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(same(x, y) for x, y in zip(a[2], b[2]))
    if a[0] == "load" and b[0] == "load":
        return same(a[1], b[1])
    if a[0] == "gep" and b[0] == "gep":
        return a[2] == b[2] and same(a[1], b[1]) and len(a[3]) == len(b[3]) and all(same(x[0], y[0]) and x[1] == y[1] for x, y in zip(a[3], b[3]))
    return a == b


CMP = {"slt": "<", "ult": "<", "sle": "<=", "ule": "<=", "sgt": ">", "ugt": ">", "sge": ">=", "uge": ">=", "eq": "==", "ne": "!="}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def counting(m, fn, T, body, p, init, step, bound, pred, swapped, leave_if):
    op = CMP.get(pred)
    if op is None:
        return None
    if swapped:
        op = FLIP[op]
    if leave_if:
        op = NEG[op]          # condition to stay in the loop
    if len(init) != 1 or not step:
        return Cover("index", "?", "several initial values", p)
    st = set()
    for s in step:
        s = nocast(s)
        if s[0] == "op" and s[1] in ("add", "sub") and nocast(s[2]) == p and s[3][0] == "c":
            st.add(s[3][1] if s[1] == "add" else -s[3][1])
        elif s[0] == "gep" and s[1] == p and not s[3]:
            st.add(("ptr", s[2]))
        else:
            return Cover("index", "?", "unknown step %s" % show(s), p)
    if len(st) != 1:
        return Cover("index", "bad", "it advances by different amounts", p)
    st = next(iter(st))
    why = []
    a = nocast(init[0])
    bnd = nocast(bound)
    if bnd[0] in ("alloca", "load"):
        r = resolve(T, bnd, body, fn)
        bnd = nocast(r[0]) if len(r) == 1 else bnd
    if isinstance(st, tuple):       # pointers
        if a[0] == "call" and last(a[1]) in BEGIN and bnd[0] == "call" and last(bnd[1]) in END and op == "!=":
            return Cover("ptr", "ok", "", p, a[2][0] if a[2] else None)
        return Cover("ptr", "?", "pointer loop", p)
    base, k = bnd, 0
    if bnd[0] == "op" and bnd[1] in ("add", "sub") and bnd[3][0] == "c":
        base, k = nocast(bnd[2]), bnd[3][1] if bnd[1] == "add" else -bnd[3][1]
    cont = size_like(base)
    if st == 1:
        if cont is None or a[0] != "c":
            return Cover("index", "?", "from %s %s %s" % (show(a), op, show(bnd)), p)
        lastv = k if op in ("<", "!=") else k + 1 if op == "<=" else None
        if lastv is None:
            return Cover("index", "?", "condition %s" % op, p, cont)
        if a[1] != 0:
            why.append("it starts at element %d" % a[1])
        if lastv < 0:
            why.append("the last element is left out")
        if lastv > 0:
            why.append("it goes past the last element")
        return Cover("index", "bad" if why else "ok", ", ".join(why), p, cont)
    if st == -1:
        return Cover("rindex", "?", "backwards", p)
    if st > 1 and a[0] == "c" and cont is not None:
        return Cover("index", "bad", "it advances by %d" % st, p, cont)
    return Cover("index", "?", "step %s" % st, p)
