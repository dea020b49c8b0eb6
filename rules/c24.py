"""The tag filters are interpreted abstractly: rules are added with the filter's own functions, lists of rules that match,
nearly match or do not match a tag in all orders are decided, and the result compared with that of the first matching rule.
Regular expressions are constants whose matches are tabulated. The text built for tags is computed over constant strings for
texts containing every character that may need an escape. Nothing is executed."""
import itertools, re
from ir import translate, FOREACH, STDFN, AnalysisBroken, strip_templates
from absint import I
from scenario import obj, SHARED, play
from seqs import Seqs, ITERS
from strings import S, params
from rules.handlers import site
from rules.lists import run_fn

F, T, OUT, ESC = obj("F"), obj("T"), obj("OUT"), obj("ESC")
RX = "boost::basic_regex::"


def chars(t):
    return I(0) if t is None else ("s", ("chr", t, 0))


class Tags(Seqs):
    def call(self, ai, st, inst, name, args):
        b = strip_templates(ai.m.base(inst) or "")
        full = ai.m.callee(inst) or ""

        def put(v, rx, rv=None):
            n = st.copy()
            a = ai.addr(v)
            if a is None:
                return None
            n.mem[a] = ("s", ("rx", rx))
            return [("ret", rv, n)]

        def get(v):
            a = ai.addr(v)
            c = st.mem.get(a) if a else None
            return c[1][1] if c is not None and c[0] == "s" and isinstance(c[1], tuple) and c[1][0] == "rx" else None
        if b.startswith(RX):
            n, par = b[len(RX):], strip_templates(params(full))
            if n == "basic_regex" and par == "":
                return put(args[0], "")
            if n in ("basic_regex", "assign", "operator="):
                x = self.text(ai, st, args[1]) if "char const*" in par or "basic_string" in par else get(args[1]) if "basic_regex" in par else None
                if x is not None and (par.count(",") == 0 or n == "basic_regex" and self.num(ai, st, args[-1]) == 0):
                    return put(args[0], x, args[0] if n != "basic_regex" else None)
                return None
            if n == "empty":
                x = get(args[0])
                return None if x is None else self.ret(I(int(x == "")), st)
            if n == "swap":
                x, y = get(args[0]), get(args[1])
                if x is not None and y is not None:
                    r = put(args[0], y)[0][2]
                    r.mem[ai.addr(args[1])] = ("s", ("rx", x))
                    return [("ret", None, r)]
            if n == "~basic_regex":
                return self.ret(None, st)
            return None
        if b in ("boost::regex_match", "boost::regex_search") and len(args) == 3:
            t, x = self.text(ai, st, args[0]), get(args[1])
            if t is None or x is None:
                return None
            if x == "":
                return None
            return self.ret(I(int(bool((re.fullmatch if b.endswith("match") else re.search)(x, t)))), st)
        return Seqs.call(self, ai, st, inst, name, args)


class Check:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m

    def filter(self, x, what, rules, default, tag, want):
        """rules: [(result, key, value or None)]"""
        ctx, m = self.ctx, self.m
        w = Tags(m)
        calls = [("drv_%s_new" % x, [F, I(int(default))], {})]
        calls += [("drv_%s_add" % x, [F, I(int(r)), chars(k)] + ([chars(v)] if x != "k" else []), {}) for r, k, v in rules]
        calls += [("drv_t_new", [T, chars(tag[0]), chars(tag[1])], {})]
        st = play(m, w, {}, calls)
        if len(st) != 1:
            ctx.count("undecided lists of rules")
            return
        mem = st[0].mem
        for how, v, kind, e in run_fn(m, w, "drv_%s_op" % x, [F, T], mem):
            if how != "ret" or v is None or v[0] != "i":
                ctx.count("undecided lists of rules")
                continue
            ctx.count("lists of rules")
            ctx.require((v[1] & 1) == int(want), x + ":first match", "with the rules %s and the default %s, %s gives %s for the tag %s=%s (%s)" % (
                ", ".join("%s%s -> %s" % (k, "" if vv is None else "=" + vv, r) for r, k, vv in rules) or "(none)", default, what, bool(v[1] & 1), tag[0], tag[1], site(m, "drv_%s_op" % x)))
        for loc, b in w.bad.items():
            ctx.require(False, x + ":outside", "%s %s (%s)" % (what, b, loc))

    def first(self, rules, default, tag, match):
        for r, k, v in rules:
            if match(k, tag[0]) and (v is None or match(v, tag[1])):
                return r
        return default

    def filters(self):
        same = lambda p, t: p == t
        full = lambda p, t: re.fullmatch(p, t) is not None
        n = 3 if self.ctx.thorough else 2
        for default in (True, False):
            ks = [("name", None), ("nam", None), ("name:de", None), ("other", None), ("Name", None)]
            vs = [("name", None), ("name", "one"), ("name", "on"), ("name", "onex"), ("other", None), ("other", "one"), ("one", "name"), ("name", "name")]
            xs = [("n.*", None), ("na", None), ("name", "o.*"), ("name", "n"), (".*", "one|two"), ("other", "one"), ("one", "name")]
            for x, what, pool, match in (("k", "the key filter", ks, same), ("v", "the key-value filter", vs, same), ("x", "the regular expression filter", xs, full)):
                lists = [[]] + [[p] for p in pool] + [list(p) for p in itertools.product(pool, repeat=2)]
                if n > 2:
                    lists += [list(p) for p in itertools.product(pool[:5], repeat=3)]
                else:
                    lists += [list(p) for p in itertools.permutations(pool[:4], 3)][::3]
                for l in lists:
                    for res in itertools.product((True, False), repeat=len(l)) if len(l) < 2 else [(True, False, True), (False, True, False)] if default else [(True, False, False), (False, True, True)]:
                        rules = [(r,) + p for r, p in zip(res, l)]
                        for tag in (("name", "one"),) if len(l) != 1 else (("name", "one"), ("other", "one"), ("name", ""), ("", ""), ("one", "name")):
                            self.filter(x, what, rules, default, tag, self.first(rules, default, tag, match))

    def texts(self):
        ctx, m = self.ctx, self.m
        weird = "a\"b\\c'd=,>\xc3\xa9\n%\x01\xff"
        tags = [("highway", "primary"), ("k\"ey", "va\\lue"), (weird, "x"), ("x", weird), ("", "v"), ("k", ""), ("", ""), ("a,b", "c=>d"), ("\"", "\\\\")]
        esc = lambda t, s: "".join("\\" + c if c in s else c for c in t)
        ops = [("drv_s_hs", [F], {}, ("\\\"", "\"", "\"=>\"", "\"", ","), "hstore"),
               ("drv_s_kv", [F, chars(";")], {}, ("", "", "=", "", ";"), "key=value"),
               ("drv_s_new", [F, ESC, chars("P"), chars("I"), chars("S"), chars("J")], {(ESC, 0): S("\"=\xc3b")}, ("\"=\xc3b", "P", "I", "S", "J"), "generic")]
        for fn, args, cells, (e, p, i, s, j), what in ops:
            for l in [[t] for t in tags] + [list(x) for x in itertools.permutations(tags[:5], 2)] + [tags[:3], tags[2:5], [("", ""), ("k", "v")], [("", ""), ("", ""), ("", "")]]:
                w = Tags(m)
                calls = [(fn, args, cells)]
                for n, (k, v) in enumerate(l):
                    o = obj("t%d" % n)
                    calls += [("drv_t_new", [o, chars(k), chars(v)], {}), ("drv_s_op", [F, OUT, o], {(OUT, 0): S("")} if n == 0 else {})]
                st = play(m, w, {}, calls)
                want = "".join((j if n else "") + p + esc(k, e) + i + esc(v, e) + s for n, (k, v) in enumerate(l))
                for x in st:
                    got = w.text(None, x, OUT)
                    if got is None:
                        ctx.count("undecided texts")
                        continue
                    ctx.count("texts of tags")
                    ctx.require(got == want, what + " text", "the tags %s become %r instead of %r in %s form (%s)" % (", ".join("%r=%r" % t for t in l), got, want, what, site(m, "drv_s_op")))


def run(ctx):
    ctx.rules = ["a filter gives the result of the first rule that matches key and value, else its default", "prefix, key, infix, value, suffix in this order, joins only between tags, escapes in keys and values"]
    ctx.assumptions = ["boost::regex matches the given expressions as documented", "lists of up to three rules and tags stand for all lists: no state is kept between rules but the position"]
    m = translate("tags.cpp", also=(FOREACH, STDFN, r"boost::(addressof|begin|end|rbegin|rend|range|range_adl_barrier|integral_constant|range_detail|detail|iterators)\b") + SHARED + ITERS)
    c = Check(ctx, m)
    c.filters()
    c.texts()
    ctx.at_least("lists of rules", 100)
    ctx.at_least("texts of tags", 30)
