"""The object model stores what it is given: setters and getters of the same name agree, adders append one element holding
their arguments. Used by the rules of the readers and writers, which treat these functions as primitives."""
from ir import translate
from terms import Terms, nocast, show

GROW = ("push_back", "emplace_back", "resize", "insert", "emplace")
STRW = ("basic_string", "operator=", "assign")


def root(t):
    while t[0] == "gep":
        t = t[1]
    return t


def off(t):
    return t[2] if t[0] == "gep" else 0


def reach(fn, b, avoid):
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x in seen or x in avoid:
            continue
        seen.add(x)
        t = fn.blocks[x][-1]
        st += [fn.bidx[t.d["normal"]]] if t.op == "invoke" else fn.succ[x]
    return seen


def module(ctx):
    m = getattr(ctx, "_model", None)
    if m is None:
        m = ctx._model = translate("object.cpp", keep=[])
    return m


def ret(m, fn, T):
    r = [b[-1] for b in fn.blocks if b[-1].op == "ret"]
    return T.t(r[0].ops[0]) if len(r) == 1 and r[0].ops else ("any", None)


def cell(m, name):
    """the address from which a getter returns; None if that cannot be told"""
    fn = m.fn(name)
    T = Terms(m, fn)
    t = nocast(ret(m, fn, T))
    if t[0] == "load":
        return t[1]
    if t[0] == "call" and t[1] and t[1].split("::")[-1] in ("c_str", "data") and t[2]:
        return t[2][0]
    return None


def writes(m, fn, T):
    """[(instruction, address, value)] of stores and string assignments"""
    out = []
    for b in fn.blocks:
        for i in b:
            if i.op == "store":
                out.append((i, T.t(i.ops[1]), T.t(i.ops[0])))
            elif i.is_call and len(i.args) > 1:
                s = m.short(i) or ""
                if s.split("::")[-1] in STRW and "basic_string" in s:
                    out.append((i, T.t(i.args[0]), T.t(i.args[1])))
    return out


def value(ctx, m, cls, name, g, prefix=""):
    """void setter(x); getter() == x"""
    fn = m.fn("drv_%ssetv_%s" % (prefix, name)) if m.fns.get("drv_%ssetv_%s" % (prefix, name)) else m.fn("drv_%sset_%s" % (prefix, name))
    T = Terms(m, fn)
    where = "%s::%s()" % (cls, name)
    ws = writes(m, fn, T)
    c = g.get(name)
    if c is None:
        ctx.count("undecided setters")
        return
    mine = [w for w in ws if w[1] == c]
    for n, o in g.items():
        if n != name and o is not None and o != c:
            ctx.require(not [w for w in ws if w[1] == o], "model:%s.%s:%s" % (cls, name, n), "setting %s changes what %s() returns" % (where, n))
        elif n != name and o is not None:
            ctx.require(False, "model:%s.%s:%s" % (cls, name, n), "%s and %s() use the same field" % (where, n))
    if not ctx.require(bool(mine) or any(w[1][0] not in ("arg", "gep") for w in ws), "model:%s.%s" % (cls, name), "the value given to %s is not stored where it is read" % where):
        return
    for i, a, v in mine:
        x = nocast(v)
        if x[0] in ("c", "f", "str"):
            ctx.require(False, "model:%s.%s" % (cls, name), "%s stores the constant %s" % (where, show(v)))
        elif x != ("arg", 1):
            ctx.count("undecided setters")
        else:
            t, narrow = v, None
            while t[0] == "cast":
                if t[1] == "trunc" and t[3] not in ("i1",):
                    narrow = t[3]
                t = t[4]
            ctx.require(not narrow, "model-width:%s.%s" % (cls, name), "%s keeps only %s of the value" % (where, narrow))
    skip = reach(fn, 0, {w[0].blk for w in mine})
    ctx.require(not mine or not any(fn.blocks[b][-1].op == "ret" for b in skip), "model:%s.%s:path" % (cls, name), "%s can return without having stored the value" % where)
    ctx.count("setter/getter pairs")


def adder(ctx, m, drv, what, fields):
    """fields: {name: (offset in the element, argument)}"""
    fn = m.fn(drv)
    T = Terms(m, fn)
    grow = [i for i in fn.calls() if (m.short(i) or "").split("::")[-1] in GROW and i.args and root(T.t(i.args[0])) == ("arg", 0)]
    if not grow:
        ctx.require(any(i.is_call for b in fn.blocks for i in b), "model:add:" + what, "adding a %s does nothing" % what)
        ctx.count("undecided adders")
        return
    ctx.require(not any(fn.blocks[b][-1].op == "ret" for b in reach(fn, 0, {i.blk for i in grow})), "model:add-path:" + what, "adding a %s can return without having added it" % what)
    for a in grow:
        for b in grow:
            # a second growing call after the first
            if a is not b and (a.blk == b.blk and a.pos < b.pos or a.blk != b.blk and b.blk in reach(fn, a.blk, ())):
                ctx.require(False, "model:add-twice:" + what, "adding a %s appends two elements" % what)
        s = m.short(a).split("::")[-1]
        ctx.require(s not in ("insert", "emplace") or len(a.args) < 2 or nocast(T.t(a.args[1]))[0] != "call" or "begin" not in T.t(a.args[1])[1], "model:add-order:" + what, "a %s is added at the beginning" % what)
    ws = writes(m, fn, T)
    handed = {root(T.t(x)) for i in grow for x in i.args[1:]}
    if all(m.short(i).split("::")[-1] == "emplace_back" for i in grow) and what != "member":
        for i in grow:
            vals = []
            for x in i.args[1:]:
                v = [nocast(w[2]) for w in ws if w[1] == T.t(x)]
                vals.append(v[0] if len(v) == 1 else nocast(T.t(x)))
            want = [("arg", k) for k in sorted(a for _, a in fields.values())]
            ctx.require(sorted(vals, key=repr) != sorted(want, key=repr) or vals == want, "model:add:%s:order" % what, "the arguments for an added %s are in another order" % what)
            dup = [v for v in vals if v in want and vals.count(v) > 1]
            ctx.require(not dup, "model:add:%s:order" % what, "an argument for an added %s is used twice" % what)
        ctx.count("adders")
        return
    for f, (o, arg) in fields.items():
        if o is None:
            ctx.count("undecided adders")
            continue
        elem = [w for w in ws if off(w[1]) == o and (root(w[1])[0] == "alloca" and root(w[1]) in handed or root(w[1])[0] == "call")]
        good = [w for w in elem if nocast(w[2]) == ("arg", arg)]
        bad = [w for w in elem if nocast(w[2])[0] == "arg" and nocast(w[2])[1] != arg]
        ctx.require(not bad, "model:add:%s:%s" % (what, f), "%s of an added %s is set from another argument" % (f, what))
        if not good and not bad:
            used = any(("arg", arg) == nocast(T.t(x)) for i in fn.calls() for x in i.args) or any(nocast(w[2]) == ("arg", arg) for w in ws)
            ctx.require(used or not elem, "model:add:%s:%s" % (what, f), "%s of an added %s is not stored" % (f, what))
            ctx.count("undecided adders")
    ctx.count("adders")


def object_model(ctx):
    m = module(ctx)
    names = ("id", "version", "changeset", "timestamp", "uid", "visible", "endtime")
    g = {n: cell(m, "drv_get_" + n) for n in names + ("user",)}
    for n in names:
        value(ctx, m, "Object", n, g)
    value(ctx, m, "Object", "user", g)
    gm = {n: cell(m, "drv_m_get_" + n) for n in ("ref", "type", "role")}
    for n in gm:
        value(ctx, m, "RelationMember", n, gm, "m_")
    gw = {"ref": cell(m, "drv_w_get_ref")}
    value(ctx, m, "WayNode", "ref", gw, "w_")
    gp = {n: cell(m, "drv_p_get_" + n) for n in ("x", "y")}
    for n in gp:
        value(ctx, m, "Position", n, gp, "p_")
    gt = {n: cell(m, "drv_t_get_" + n) for n in ("key", "value")}
    o = lambda c: off(c) if c is not None else None
    adder(ctx, m, "drv_add_node", "node reference", {"ref": (o(gw["ref"]), 1)})
    adder(ctx, m, "drv_add_member", "member", {"type": (o(gm["type"]), 1), "ref": (o(gm["ref"]), 2), "role": (o(gm["role"]), 3)})
    for drv, what, fs in (("drv_ctor_tag", "Tag", {"key": (o(gt["key"]), 1), "value": (o(gt["value"]), 2)}), ("drv_ctor_waynode", "WayNode", {"ref": (o(gw["ref"]), 1)})):
        fn = m.fn(drv)
        T = Terms(m, fn)
        ws = writes(m, fn, T)
        for f, (of, arg) in fs.items():
            bad = [w for w in ws if root(w[1]) == ("arg", 0) and off(w[1]) == of and nocast(w[2])[0] in ("arg", "c") and nocast(w[2]) != ("arg", arg)]
            ctx.require(not bad, "model:ctor:%s:%s" % (what, f), "the constructor of %s does not store %s where it is read" % (what, f))
    adder(ctx, m, "drv_add_tag", "tag", {"key": (o(gt["key"]), 1), "value": (o(gt["value"]), 2)})
    ctx.at_least("setter/getter pairs", 8)
