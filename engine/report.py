"""Running a check: violations, known findings, evidence, exit status."""
import json, os, sys, time, traceback, importlib, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import ir

KNOWN = os.path.join(ir.VERIF, "known_findings.txt")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ir.VERIF, "evidence"))


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = {}          # key -> (message, details)
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.explanation = ""
        self.level = "other"
        self.obl = self.dis = 0
        self._seen_obl = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def violation(self, key, msg, details=()):
        """key: stable name of the construct (no line numbers); msg: what is wrong and where"""
        if key not in self.viol:
            self.viol[key] = (msg, list(details))

    def ok(self, what, good=True):
        """one obligation that was examined; good tells whether it was discharged"""
        self.obl += 1
        if good:
            self.dis += 1
        if len(self.samples) < 12 and what not in self._seen_obl:
            self._seen_obl.add(what)
            self.samples.append(what)

    def require(self, good, key, msg, details=()):
        self.ok(key, good)
        if not good:
            self.violation(key, msg, details)
        return good

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def at_least(self, what, n):
        if self.counts.get(what, 0) < n:
            # most of it is in a form that cannot be interpreted; what was decided stands
            self.incomplete = "%s: only %d instances found, at least %d expected" % (what, self.counts.get(what, 0), n)
            print("note: analysis incomplete: %s" % self.incomplete)


def known(prop):
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)", l.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier)
    os.makedirs(EVID, exist_ok=True)
    try:
        mod = importlib.import_module("rules." + prop.lower())
        mod.run(ctx)
    except ir.Undecided as e:
        # a function in a form that cannot be interpreted: nothing is said about it or what was to come after it
        print("note: analysis incomplete: %s" % e)
        ctx.incomplete = str(e)
        if not ctx.viol and not ctx.obl:
            return 2
    except ir.AnalysisBroken as e:
        ctx.incomplete = str(e)
        if not ctx.viol and not ctx.obl:
            print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
            return 2
        print("note: analysis incomplete: %s" % e)
    except Exception:
        traceback.print_exc()
        print("note: analysis incomplete: internal error, see above")
        ctx.incomplete = "internal error"
        if not ctx.viol and not ctx.obl:
            return 2
    if not ctx.viol and not ctx.obl:
        print("ANALYSIS-BROKEN property=%s nothing could be decided" % prop)
        return 2
    kn = known(prop)
    new = {k: v for k, v in ctx.viol.items() if k not in kn}
    for k in ctx.viol:
        if k in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kn[k]))
    wall = time.time() - t0
    cov = {"explanation": ctx.explanation or (sys.modules["rules." + prop.lower()].__doc__ or "").strip(),
           "rules": ctx.rules, "counts": ctx.counts, "obligations": ctx.obl, "discharged": ctx.dis,
           "samples": ctx.samples,
           "known_findings": sorted(k for k in ctx.viol if k in kn)}
    if getattr(ctx, "incomplete", None):
        cov["incomplete"] = ctx.incomplete
    ev = {"property": prop, "tier": tier, "seed": seed, "level": ctx.level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(wall, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %s (%.1f s)" % (prop, ctx.obl, ctx.dis, ", ".join("%s %d" % x for x in ctx.counts.items()), wall))
    if new:
        p = os.path.join(EVID, prop + ".violation.txt")
        with open(p, "w") as f:
            for k, (msg, det) in new.items():
                f.write("violation of %s [%s]\n  %s\n" % (prop, k, msg))
                for d in det:
                    f.write("    %s\n" % d)
        for k, (msg, det) in new.items():
            print("  [%s] %s" % (k, msg))
            for d in det:
                print("      %s" % d)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    print("property %s holds on everything analysed" % prop)
    return 0
