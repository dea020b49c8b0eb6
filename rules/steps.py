"""A sequence of calls on objects that live in the memory left by the calls before."""
from ir import AnalysisBroken, Undecided
from absint import I
from rules.lists import run_fn


def statics(m):
    """cells of the local variables with static storage that are numbers: they start with the value of their initializer"""
    r = m.__dict__.get("_statics")
    if r is None:
        r = m._statics = {}
        for n, g in m.globals.items():
            i = g.get("init")
            if not g["const"] and n.startswith(("_ZZ", "_ZL", "_ZN12_GLOBAL")) and isinstance(i, dict):
                if "c" in i:
                    r[(("glob", n), 0)] = I(i["c"])
                elif i.get("zero", 99) in (1, 2, 4, 8):
                    r[(("glob", n), 0)] = I(0)
    return dict(r)


class Run:
    def __init__(self, m, w):
        self.m, self.w = m, w
        self.mem, self.auto = statics(m), ()

    def call(self, fn, *args, cells=None):
        """[(how, kind)] and the states; updates the memory if there is one normal outcome"""
        mem = dict(self.mem)
        mem.update(cells or {})
        try:
            r = run_fn(self.m, self.w, fn, list(args), mem, self.auto)
        except (Undecided, AnalysisBroken):
            return None
        return r

    def step(self, fn, *args, cells=None):
        """the call must have one outcome: 'ret', kind of the exception or None (undecided)"""
        n = len(self.auto)
        r = self.call(fn, *args, cells=cells)
        self.last = ()
        if self.w.bad:
            self.broke = dict(self.w.bad)
            self.w.bad.clear()
            return "bad"
        if r is None or len(r) != 1:
            return None
        how, v, kind, st = r[0]
        self.mem = {k: x for k, x in st.mem.items() if k[0][0] != "alloca"}
        self.auto = st.auto
        self.last = self.auto[n:]
        return "ret" if how == "ret" else ("throw", kind)

    def copy(self):
        r = Run(self.m, self.w)
        r.mem, r.auto = dict(self.mem), self.auto
        return r
