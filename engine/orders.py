"""Abstract interpretation over finite sets of order types: inputs of a function are named values; their mutual order is
given by an assignment of representatives (covering every order type, sign and extreme value), comparisons are decided by
it, arithmetic is evaluated exactly at the width of the instruction.  The result of a function is a table from order types
to outcomes, from which algebraic laws are decided."""
from absint import AbsInt, St, Hooks, I

ABS = ("llvm.abs", "std::abs", "abs", "labs", "llabs", "std::labs", "std::llabs")


def sgn(n, w):
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) else n


class Unknown(Exception):
    pass


class Orders(Hooks):
    """values: ('s', ('f', name, width)) with an assignment name -> integer"""
    def __init__(self, m, assign, addresses=None, others=None):
        self.m, self.assign = m, assign
        self.addresses = addresses or {}    # object -> representative of its address
        self.others = others or {}          # object -> representative of all fields that are not named

    def value(self, v):
        """integer a value stands for, or raises Unknown"""
        if v[0] == "i":
            return v[1]
        if v[0] == "c":
            r = self.order(None, None, v[1], v[2], v[3])
            if r is None:
                raise Unknown()
            return int(r)
        if v in self.addresses:
            return self.addresses[v]
        if v[0] != "s" or not isinstance(v[1], tuple):
            raise Unknown()
        k = v[1]
        if k[0] == "other":
            return self.others[k[1]]
        if k[0] == "f":
            if k[1] not in self.assign:
                raise Unknown()
            return sgn(self.assign[k[1]], k[2])
        if k[0] == "op":
            _, op, w, a, b = k
            x, y = self.value(a), self.value(b)
            M = (1 << w) - 1
            try:
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                     "shl": lambda: x << (y & 127), "lshr": lambda: (x & M) >> (y & 127), "ashr": lambda: x >> (y & 127),
                     "sdiv": lambda: int(x / y) if abs(x) < 2 ** 50 else abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), "udiv": lambda: (x & M) // (y & M),
                     "srem": lambda: (abs(x) % abs(y)) * (1 if x >= 0 else -1), "urem": lambda: (x & M) % (y & M)}[op]()
            except (KeyError, ZeroDivisionError):
                raise Unknown()
            return sgn(r, w) if w > 1 else r & 1
        if k[0] == "cast":
            _, op, f, w, a = k
            x = self.value(a)
            if op == "zext":
                return x & ((1 << f) - 1)
            if op == "trunc":
                return sgn(x, w) if w > 1 else x & 1
            return x
        if k[0] == "abs":
            return sgn(abs(self.value(k[2])), k[1])
        if k[0] == "pair":
            return sgn((self.value(k[1]) & 0xffffffff) | (self.value(k[2]) & 0xffffffff) << 32, 64)
        raise Unknown()

    def order(self, ai, st, pred, a, b):
        if a[0] in ("p", "fn", "tid", "u") or b[0] in ("p", "fn", "tid", "u"):
            return None
        try:
            x, y = self.value(a), self.value(b)
        except Unknown:
            return None
        if pred[0] == "u" and pred not in ("une", "ueq"):
            x, y = x & (2 ** 64 - 1), y & (2 ** 64 - 1)
        return {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
                "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}.get(pred)

    def bits(self, inst, key="ty"):
        t = self.m.strs[inst.d[key]]
        return int(t[1:]) if t[0] == "i" and t[1:].isdigit() else None

    def known(self, v):
        try:
            self.value(v)
            return True
        except Unknown:
            return False

    def arith(self, ai, st, inst, op, a, b):
        w = self.bits(inst)
        if w is None or not self.known(a) or b is not None and not self.known(b):
            return None
        halves = self.halves(op, w, a, b)
        if halves is not None:
            return halves
        v = ("s", ("cast", op, self.bits(inst, "from"), w, a)) if b is None else ("s", ("op", op, w, a, b))
        if a[0] == "i" and (b is None or b[0] == "i"):
            try:
                return I(self.value(v))
            except Unknown:
                return None
        return v if self.known(v) else None

    def halves(self, op, w, a, b):
        """two 32 bit values packed into a 64 bit one and taken out again"""
        def term(v, *head):
            return v[0] == "s" and isinstance(v[1], tuple) and v[1][:len(head)] == head
        if op == "trunc" and w == 32 and b is None:
            if term(a, "pair"):
                return a[1][1]
            if term(a, "op", "lshr", 64) and term(a[1][3], "pair") and a[1][4] == I(32):
                return a[1][3][1][2]
        if op == "or" and w == 64 and b is not None:
            for x, y in ((a, b), (b, a)):
                if term(x, "op", "shl", 64) and x[1][4] == I(32) and term(x[1][3], "cast", "zext", 32, 64) and term(y, "cast", "zext", 32, 64):
                    return ("s", ("pair", y[1][4], x[1][3][1][4]))
        return None

    def intr(self, ai, st, inst, name, args):
        if name.startswith("llvm.abs") and self.known(args[0]):
            return ("s", ("abs", self.bits(inst), args[0]))
        w = self.bits(inst) if "ty" in inst.d else None
        for k, p in (("llvm.smax", "sgt"), ("llvm.smin", "slt"), ("llvm.umax", "ugt"), ("llvm.umin", "ult")):
            if name.startswith(k) and len(args) == 2:
                r = self.order(ai, st, p, args[0], args[1])
                if r is not None:
                    return args[0] if r else args[1]
        return None

    def call(self, ai, st, inst, name, args):
        if name in ABS and args and self.known(args[0]) and "ty" in inst.d and self.bits(inst):
            return [("ret", ("s", ("abs", self.bits(inst), args[0])), st)]
        return None

    def width(self, v):
        if v[0] == "s" and isinstance(v[1], tuple):
            if v[1][0] == "f":
                return v[1][2]
            if v[1][0] == "pair":
                return 64
            if v[1][0] == "other":
                return v[1][3]
        return None

    def loaded(self, ai, st, a, val, size):
        if val is not None:
            w = self.width(val)
            if size == 8 and w == 32:
                hi = st.mem.get((a[0], a[1] + 4))
                return ("s", ("pair", val, hi)) if hi is not None and (self.width(hi) == 32 or hi[0] == "i") else None
            if size == 8 and val[0] == "i" and isinstance(a[1], int):
                hi = st.mem.get((a[0], a[1] + 4))
                if hi is not None and (hi[0] == "i" or self.width(hi) == 32):
                    return ("s", ("pair", val, hi))
            if size == 4 and w == 64 and val[1][0] == "pair":
                return val[1][1]
            return val
        if size == 4 and isinstance(a[1], int):
            v = st.mem.get((a[0], a[1] - 4))
            if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "pair":
                return v[1][2]
        if a[0] in self.others and isinstance(a[1], int) and size in (1, 2, 4, 8):
            return ("s", ("other", a[0], a[1], 8 * size))
        return None

    def pinned(self, st):
        return ()


def outcome(m, fn, cells, assign, hooks=Orders, setup=None, **kw):
    """run fn with memory cells {(base, off): value}; -> list of (how, value or kind, state)"""
    h = hooks(m, assign, **kw)
    ai = AbsInt(m, fn, h)
    s = St()
    s.mem.update(cells)
    if setup:
        setup(s)
    out = []
    for how, kind, st, inst in ai.run(s):
        v = st.env.get("ret")
        if how == "ret" and v is not None:
            try:
                v = h.value(v)
            except Unknown:
                v = None
        out.append((how, v if how == "ret" else kind, st))
    return out, h


def laws(items, less):
    """violations of the laws of a strict weak ordering in a table less[(a, b)]: first counterexample per law"""
    bad = {}
    for a in items:
        if less[a, a]:
            bad.setdefault("irreflexive", (a,))
    for a in items:
        for b in items:
            if a != b and less[a, b] and less[b, a]:
                bad.setdefault("asymmetric", (a, b))
    inc = {(a, b): not less[a, b] and not less[b, a] for a in items for b in items}
    for a in items:
        for b in items:
            if not less[a, b] and not inc[a, b]:
                continue
            for c in items:
                if less[a, b] and less[b, c] and not less[a, c]:
                    bad.setdefault("transitive", (a, b, c))
                if inc[a, b] and inc[b, c] and not inc[a, c]:
                    bad.setdefault("transitive in its incomparability", (a, b, c))
    return bad
