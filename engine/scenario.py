"""Abstract interpretation of sequences of calls on one object: the memory left by a call is where the next one starts.
Objects carry representative field values (all order types that matter to the caller), sets are modelled by their nodes,
callbacks of opaque probe classes are recorded as events in the automaton of the state."""
import re
from absint import AbsInt, St, I
from orders import Orders
from ir import strip_params, Undecided

SHARED = (r"boost::shared_ptr<", r"boost::operator", r"boost::swap", r"boost::bind<", r"boost::bi::", r"boost::_bi::", r"boost::_mfi::",
          r"boost::arg<", r"std::for_each<", r"std::set<", r"std::_Rb_tree(_const)?_iterator",
          r"std::_Rb_tree<.*::(_M_insert_unique|_M_get_insert_unique_pos|_M_insert_|_M_begin|_M_end|_S_key|_S_value|_S_left|_S_right|_M_lower_bound|_M_upper_bound|find|lower_bound|upper_bound|begin|end|_M_mbegin|_M_leftmost|_M_rightmost|_M_root)(<|\()",
          r"(^|[ &*>])std::less<", r"std::_Identity<", r"std::pair<[^()]*>::pair", r"std::make_pair<", r"^__gnu_cxx::__normal_iterator")


CLEAR = re.compile(r"_Rb_tree<.*::(_M_erase|_M_erase_aux|clear|_M_reset)\(|_Rb_tree_header::_M_reset\(|std::set<.*::clear\(")


def obj(name):
    return ("s", ("arg", name))


class World(Orders):
    """probe: regex of probe callbacks with groups (who)(callback)"""
    probe = re.compile(r"\bP<(\d)>::(\w+)\(")
    watch = ()                                  # field offsets of a delivered object to record: [(name, off)]

    def __init__(self, m, sets=()):
        Orders.__init__(self, m, {})
        self.sets = dict(sets)                  # (base, off) of a set -> (kind, [node names])
        self.unknown = set()

    # ---- model ------------------------------------------------------
    def setof(self, a):
        """kind of the set whose representation contains address a"""
        for (b, o), (kind, nodes) in self.sets.items():
            if a and a[0] == b and o <= a[1] < o + 48:
                return (b, o)
        return None

    def cells(self):
        """memory of the modelled sets (libstdc++ red-black trees, nodes in a chain of right children)"""
        mem = {}
        for (b, o), (kind, nodes) in self.sets.items():
            hdr = ("p", b, o + 8)
            ns = [obj(n + ".n") for n in nodes]
            mem[(b, o + 16)] = ns[0] if nodes else I(0)
            mem[(b, o + 24)] = ns[0] if nodes else hdr
            mem[(b, o + 32)] = ns[-1] if nodes else hdr
            mem[(b, o + 40)] = I(len(nodes))
            for k, n in enumerate(nodes):
                mem[(ns[k], 8)] = ns[k - 1] if k else hdr
                mem[(ns[k], 16)] = I(0)
                mem[(ns[k], 24)] = ns[k + 1] if k + 1 < len(nodes) else I(0)
                mem[(ns[k], 32)] = obj(n)
        return mem

    def empty(self, st, s):
        """the set is emptied; True if it was not empty"""
        b, o = s
        hdr = ("p", b, o + 8)
        was = st.mem.get((b, o + 24)) != hdr
        st.mem.update({(b, o + 16): I(0), (b, o + 24): hdr, (b, o + 32): hdr, (b, o + 40): I(0)})
        return was

    def step(self, v, d):
        for (b, o), (kind, nodes) in self.sets.items():
            hdr = ("p", b, o + 8)
            ring = [obj(n + ".n") for n in nodes] + [hdr]
            if v in ring:
                k = ring.index(v) + d
                return ring[k] if 0 <= k < len(ring) else None
        return None

    def order(self, ai, st, pred, a, b):
        if a[0] in ("p", "s") and b[0] in ("p", "s") and pred in ("eq", "ne"):
            named = [v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "arg" or v[0] == "p" and v[1][0] == "s" and isinstance(v[1][1], tuple) and v[1][1][0] == "arg" for v in (a, b)]
            if all(named):
                return (a == b) == (pred == "eq")
        for x, y in ((a, b), (b, a)):
            if y == I(0) and x[0] == "s" and isinstance(x[1], tuple) and x[1][0] == "arg" and isinstance(x[1][1], str) and pred in ("eq", "ne"):
                return pred == "ne"
        return Orders.order(self, ai, st, pred, a, b)

    def no_havoc(self, ai, st, addr, inst):
        n = ai.m.callee(inst) or ""
        return "shared_count" in n or "sp_counted" in n or "_Rb_tree_increment" in n or "_Rb_tree_decrement" in n or bool(self.probe.search(n)) or \
            addr[0][0] == "s" and isinstance(addr[0][1], tuple) and addr[0][1][0] == "arg" and str(addr[0][1][1]).startswith("=")

    def event(self, st, ev):
        n = st.copy()
        n.auto = (st.auto or ()) + (ev,)
        return [("ret", None, n)]

    def show(self, st, v):
        """what an argument of a callback stands for"""
        if v is None:
            return None
        if v[0] == "i":
            return v[1]
        a = (v[1], v[2]) if v[0] == "p" else (v, 0)
        if a[0][0] == "s" and isinstance(a[0][1], tuple) and a[0][1][0] == "arg" and a[1] == 0 and str(a[0][1][1]).startswith("="):
            return a[0][1][1][1:]
        p = st.mem.get(a)
        if p is None:
            return "?"
        if p == I(0):
            return "null"
        if p[0] == "s" and isinstance(p[1], tuple) and p[1][0] == "arg":
            w = []
            for f, o in self.watch:
                x = st.mem.get((p, o))
                w.append((f, x[1] if x is not None and x[0] == "i" else "?"))
            return (p[1][1],) + tuple(w) if w else p[1][1]
        return "?"

    def call(self, ai, st, inst, name, args):
        full = ai.m.callee(inst) or name or ""
        if "callee" in inst.d and name and ai.m.base(inst) is None:
            full = name + "("
        k = self.probe.search(full)
        if k:
            return self.event(st, (k.group(1), k.group(2)) + tuple(self.show(st, a) for a in args[1:2]))
        if "_Rb_tree_increment" in full or "_Rb_tree_decrement" in full:
            r = self.step(args[0], 1 if "increment" in full else -1)
            return None if r is None else [("ret", r, st)]
        if CLEAR.search(full):
            s = self.setof(ai.addr(args[0]))
            if s:
                n = st.copy()
                if self.empty(n, s):
                    return self.event(n, ("store", "clear", self.sets[s][0]))
                return [("ret", None, n)]
        if "_Rb_tree_insert_and_rebalance" in full:
            s = self.setof(ai.addr(args[3]))
            if s:
                left = ai.const_of(st, args[0])
                at = args[2][1][1][:-2] if args[2][0] == "s" and isinstance(args[2][1], tuple) and str(args[2][1][1]).endswith(".n") else None
                return self.event(st, ("store", "insert", self.sets[s][0], self.show(st, ai.padd(args[1], 32)), None if at is None or left is None else ("before " if left else "after ") + at))
        return Orders.call(self, ai, st, inst, name, args)

    def may_throw(self, ai, inst, name):
        return False


def play(m, world, mem, calls, limit=64):
    """calls: [(driver function, [argument values], {cells to set before})] -> final states (auto = events)"""
    states = []
    s = St()
    s.mem.update(mem)
    s.auto = ()
    states = [s]
    for n, (fn, args, cells) in enumerate(calls):
        f = m.fn(fn)
        out = {}
        for s in states:
            t = St()
            t.mem = dict(s.mem)
            t.mem.update(cells)
            t.facts = {k: v for k, v in s.facts.items()}
            t.auto, t.trace = s.auto, None
            ai = AbsInt(m, f, world, name="c%d" % n, args=args)
            ai.maxstates = 20000
            for how, kind, e, inst in ai.run(t):
                if how != "ret":
                    continue
                e.mem = {k: v for k, v in e.mem.items() if k[0][0] != "alloca"}
                out[(frozenset(e.mem.items()), e.auto)] = e
        states = list(out.values())
        if len(states) > limit:
            raise Undecided("too many states after %s" % fn)
        if not states:
            return []
    return states
