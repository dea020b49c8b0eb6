"""Handler protocol automaton shared by the rules about callbacks."""
from rules.expat import Expat
from absint import Hooks, AbsInt, St, I, OTHER, path_lines
from ir import strip_templates

STOP = "_ZTIN6Osmium7Handler11StopReadingE"
EV = {"init": "init", "final": "final", "before_nodes": "bn", "node": "n", "after_nodes": "an", "before_ways": "bw", "way": "w",
      "after_ways": "aw", "before_relations": "br", "relation": "r", "after_relations": "ar"}
KIND = {"n": "node", "w": "way", "r": "relation"}


class Proto:
    """states: start | idle:<last kind> | in:<kind> | done ; plus flag 'stop' after StopReading"""
    START = ("start", False, None)

    @staticmethod
    def step(auto, ev, exc):
        """-> (new state, error text or None)"""
        st, stop = auto
        if ev == "final":
            if st == "done":
                return auto, "final is called a second time"
            if exc is not None:
                return ("done", stop), "final is called although reading failed with an exception other than StopReading"
            if not stop:
                if st == "start":
                    return ("done", stop), "final is called although init has not been called"
                if st.startswith("in:"):
                    return ("done", stop), "final is called before after_%ss" % st[3:]
            return ("done", stop), None
        if st == "done":
            return auto, "%s is called after final" % ev
        if stop:
            return auto, "callback %s is called after a handler asked to stop reading" % ev
        if ev == "init":
            if st != "start":
                return auto, "init is called a second time"
            return ("idle:", stop), None
        if st == "start":
            return auto, "%s is called before init" % ev
        k = KIND[ev[-1]]
        if ev[0] == "b" and len(ev) == 2:
            if st.startswith("in:"):
                return ("in:" + k, stop), "before_%ss is called while the section of %ss is still open" % (k, st[3:])
            if st == "idle:" + k:
                return ("in:" + k, stop), "a run of %ss is split: after_%ss is directly followed by before_%ss" % (k, k, k)
            return ("in:" + k, stop), None
        if ev[0] == "a" and len(ev) == 2:
            if st != "in:" + k:
                return ("idle:" + k, stop), "after_%ss is called while the %s section is not open" % (k, k)
            return ("idle:" + k, stop), None
        if st != "in:" + k:
            return auto, "%s is delivered outside before_%ss/after_%ss" % (k, k, k)
        return auto, None


def callback(base, cls="Probe"):
    """event of a call to a callback of the probe handler"""
    if base and base.startswith(cls + "::"):
        return EV.get(base[len(cls) + 2:])
    return None


class ProtoHooks(Expat, Hooks):
    def __init__(self, ctx, where):
        self.ctx, self.where, self.errors = ctx, where, 0
        self.sites = set()
        self.nevents = {}
        self.xml_init()

    def other_matches(self, ti):
        return False if ti == STOP else None

    def report(self, ai, st, inst, ev, err):
        self.ctx.violation("%s:%s:%s" % (self.where, ev, err.split(" ")[0] + " " + err.split(":")[0][-60:]),
                           "%s: %s, at %s" % (self.where, err, ai.m.loc(inst)), ["path: " + " > ".join(path_lines(ai, st))])

    def fire(self, ai, st, inst, ev):
        exc = None
        for k in ([st.exc] if st.exc else []) + list(st.caught):
            if k != STOP:
                exc = k
        self.nevents[ev] = self.nevents.get(ev, 0) + 1
        self.sites.add((ai.fn.name, inst.id))
        a, err = Proto.step(st.auto[:2], ev, exc)
        st.auto = a + st.auto[2:]
        if err:
            self.report(ai, st, inst, ev, err)

    def call(self, ai, st, inst, name, args):
        ev = callback(name)
        if ev is None:
            return self.xml_call(ai, st, inst, name, args)
        self.fire(ai, st, inst, ev)
        s1, s2 = st.copy(), st.copy()
        s1.auto = (st.auto[0], True) + st.auto[2:]
        r = [("ret", None, st), ("throw", OTHER, s2)]
        if ev != "final":
            r.append(("throw", STOP, s1))
        return r

    def exit(self, ai, st, how, kind, inst):
        if ai.name is None and how == "ret":
            self.ctx.require(st.auto[0] == "done", "%s:return" % self.where,
                             "%s: reading ends normally without final having been called" % self.where,
                             ["path: " + " > ".join(path_lines(ai, st))])
        if ai.name is None and how == "throw" and kind == STOP:
            self.ctx.require(False, "%s:stop-escapes" % self.where, "%s: StopReading leaves the reader without final having been called" % self.where,
                             ["path: " + " > ".join(path_lines(ai, st))])
