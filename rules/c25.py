"""The setters of user names and roles are interpreted abstractly for texts of every length class around the documented limit
(and around the limits of narrower integers): which of them throw, and what the object holds afterwards. Nothing is executed."""
from ir import translate, FOREACH, STDFN, AnalysisBroken
from absint import I
from scenario import obj, SHARED
from seqs import Seqs, ITERS, data
from strings import S
from terms import Terms
from rules.handlers import site
from rules.lists import run_fn, ptr_at, vec_at
from rules.model import root, off
from rules.common import KEEP_OSM

O, M, R, TXT = obj("O"), obj("M"), obj("R"), obj("TXT")
LIMIT = 255 * 4             # bytes of 255 UTF-8 characters


def string_at(m, getter):
    fn = m.fn(getter)
    T = Terms(m, fn)
    for i in fn.calls():
        if i.args and root(T.t(i.args[0])) == ("arg", 0):
            return off(T.t(i.args[0]))
    raise AnalysisBroken("the text returned by %s cannot be found" % getter)


def body(n):
    return "".join(chr(33 + k % 90) for k in range(n))


RELEVANT = ("_ZTISt12length_error", "_ZTISt11logic_error", "_ZTISt9exception")


def dispatch(fn, t, m):
    """where a comparison of the type of the exception leads, or None"""
    if t.op != "br" or len(t.d["succ"]) != 2 or "i" not in t.d["ops"][0]:
        return None
    c = fn.insts[t.d["ops"][0]["i"]]
    if c.op != "icmp" or c.d["pred"] not in ("eq", "ne"):
        return None
    for o in c.ops:
        k = fn.insts[o["i"]] if "i" in o else None
        if k is not None and k.is_call and (m.base(k) or "").startswith("llvm.eh.typeid.for"):
            hit = k.args[0].get("g") in RELEVANT
            return [fn.bidx[t.d["succ"][0 if hit == (c.d["pred"] == "eq") else 1]]]
    return None


def swallowed(fn, call, m):
    """does a handler end the refusal of a text without passing it on?"""
    if call.op != "invoke":
        return False
    todo, seen = [fn.bidx[call.d["unwind"]]], set()
    pads = [i for i in fn.blocks[todo[0]] if i.op == "landingpad"]
    types = [None if "null" in c["catch"] else c["catch"].get("g") for p in pads for c in p.d["clauses"] if c.get("catch") is not None]
    if not any(t is None or t in RELEVANT for t in types):
        return False
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        code = fn.blocks[b]
        if any(i.op in ("resume", "unreachable") or i.is_call and (m.base(i) or "") in ("__cxa_rethrow", "__cxa_throw", "_exit", "exit", "abort") for i in code):
            continue
        if any(i.op == "ret" for i in code):
            return True
        todo += dispatch(fn, code[-1], m) or fn.succ[b]
    return False


def readers(ctx):
    """no reader turns a refused text into an object without it"""
    m = translate("input.cpp", keep=KEEP_OSM)
    for fn in m.fns.values():
        for i in fn.calls():
            if (m.short(i) or "") in ("Osmium::OSM::Object::user", "Osmium::OSM::Object::set_attribute", "Osmium::OSM::Relation::add_member", "Osmium::OSM::RelationMemberList::add_member") and len(i.args) > 1:
                if fn.dem.startswith("Osmium::OSM::"):
                    continue
                r = swallowed(fn, i, m)
                ctx.count("calls in readers")
                ctx.require(not r, "reader:swallowed", "%s goes on after a text was refused as too long (%s)" % (fn.dem.split("(")[0].split("<")[0], m.loc(i)))


def run(ctx):
    ctx.rules = ["texts longer than 255 UTF-8 characters can take are refused", "a refused text changes nothing", "shorter texts are stored unchanged"]
    ctx.assumptions = ["lengths around the limit and around powers of two stand for all lengths"]
    m = translate("object.cpp", also=(FOREACH, STDFN) + SHARED + ITERS)
    us, ro = string_at(m, "drv_get_user"), string_at(m, "drv_m_get_role")
    lens = [0, 1, 2, 15, 16, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2048, 4096, 65535, 65536, 65537, 65792, 65536 + 1020]
    if ctx.thorough:
        lens += list(range(3, 1100, 37)) + [1 << 17, (1 << 17) + 5, (1 << 20) + 3]
    ways = (("user", "drv_set_user", O, us, "the user name"), ("attribute", "drv_set_attr_user", O, us, "the user name"), ("role", "drv_m_set_role", M, ro, "the role"))
    for key, fn, o, at, what in ways:
        loc = site(m, fn)
        for n in lens:
            w = Seqs(m)
            x = body(n)
            out = run_fn(m, w, fn, [o, ("s", ("chr", x, 0))], {(o, at): S("before")}, ())
            if not out:
                ctx.count("undecided texts")
            for how, v, kind, e in out:
                ctx.count("texts examined")
                t = w.text(None, e, ("p", o, at))
                if n > LIMIT:
                    if not ctx.require(how == "throw", key + ":long", "%s is set to a text of %d bytes, longer than 255 UTF-8 characters can be (%s)" % (what, n, loc)):
                        continue
                    if t is None:
                        ctx.count("undecided texts")
                    else:
                        ctx.require(t == "before", key + ":unchanged", "%s changes though a text of %d bytes is refused (%s)" % (what, n, loc))
                elif ctx.require(how == "ret", key + ":short", "a text of %d bytes is refused as %s (%s)" % (n, what[4:], loc)):
                    if t is None:
                        ctx.count("undecided texts")
                    else:
                        ctx.require(t == x, key + ":stored", "a text of %d bytes is stored as one of %d bytes%s as %s (%s)" % (n, len(t), "" if len(t) != n else " with other contents", what[4:], loc))
    # members added to a relation
    loc = site(m, "drv_add_member")
    ml = ptr_at(m, "drv_r_members")
    va = vec_at(m, "drv_rm_begin")
    ms = m.types["Osmium::OSM::RelationMember"]["size"]
    for n in lens:
        w = Seqs(m)
        x = body(n)
        mem = w.vector(R, ml + va, "m", ms, 1)
        mem[(data("m"), ro)] = S("before")
        for how, v, kind, e in run_fn(m, w, "drv_add_member", [R, I(ord("n")), I(5), ("s", ("chr", x, 0))], mem, ()):
            i = w.info(e, (R, ml + va))
            if i is None:
                ctx.count("undecided texts")
                continue
            ctx.count("texts examined")
            if n > LIMIT:
                ctx.require(how == "throw", "member:long", "a member with a role of %d bytes is added (%s)" % (n, loc))
                ctx.require(i[1] == 1, "member:unchanged", "a member is added though its role of %d bytes is refused (%s)" % (n, loc))
            elif ctx.require(how == "ret" and i[1] == 2, "member:short", "a member with a role of %d bytes is not added (%s)" % (n, loc)):
                t = w.text(None, e, ("p", data(i[0]), ms + ro))
                if t is None:
                    ctx.count("undecided texts")
                else:
                    ctx.require(t == x, "member:stored", "a role of %d bytes is stored as one of %d bytes (%s)" % (n, len(t), loc))
    readers(ctx)
    ctx.at_least("texts examined", 60)
