"""Constant-string domain: contents of std::string objects and C strings during abstract interpretation.
The cell of a string object holds ('s', ('str', text)); a pointer to its characters is ('s', ('chr', text, position))."""
import re
from absint import I, AbsInt
from scenario import World
from ir import strip_templates

NPOS = -1
BS = "std::__cxx11::basic_string"


def S(text):
    return ("s", ("str", text))


def params(full):
    """parameter list of a demangled name"""
    j = full.rindex(")")
    d = 0
    for k in range(j, -1, -1):
        d += (full[k] == ")") - (full[k] == "(")
        if d == 0:
            return full[k + 1:j]
    return ""


class Strings(World):
    def text(self, ai, st, v):
        """contents of a string object or C string an argument points to, or None"""
        if v is None:
            return None
        if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "chr":
            return v[1][1][v[1][2]:]
        if v[0] == "p" and v[1][0] == "s" and isinstance(v[1][1], tuple) and v[1][1][0] == "chr":
            return v[1][1][1][v[1][1][2] + v[2]:]
        a = (v[1], v[2]) if v[0] == "p" else (v, 0) if v[0] == "s" else None
        if a is None:
            return None
        c = st.mem.get(a)
        if c is not None and c[0] == "s" and isinstance(c[1], tuple) and c[1][0] == "str":
            return c[1][1]
        if a[0][0] == "glob":
            g = self.m.globals.get(a[0][1])
            if g and g.get("const") and "init" in g:
                if "strhex" in g["init"]:
                    b = bytes.fromhex(g["init"]["strhex"])[a[1]:]
                    return b.split(b"\0")[0].decode("latin-1")
                if "zero" in g["init"]:
                    return ""
        return None

    def put(self, ai, st, v, text):
        """the string object at v holds text (None: unknown)"""
        n = st.copy()
        a = ai.addr(v)
        if a:
            ai.clear(n, a[0], a[1], a[1] + 32)
            n.mem[a] = S(text) if text is not None else ("u",)
        return n

    def ret(self, v, st):
        return [("ret", v, st)]

    def num(self, ai, st, v):
        return ai.const_of(st, v)

    def call(self, ai, st, inst, name, args):
        full = ai.m.callee(inst) or name or ""
        base = strip_templates(ai.m.base(inst) or "")
        if base.startswith("__cxa_guard"):
            return self.guard(ai, st, inst, base, args)
        if base in ("__cxa_atexit", "std::__new_allocator::~__new_allocator", "std::allocator::~allocator", "std::allocator::allocator", "__errno_location"):
            v = None if "ty" not in inst.d else ai.sy(inst)
            return self.ret(v, st)
        if base.startswith(BS + "::"):
            r = self.method(ai, st, inst, base[len(BS) + 2:], full, args)
            if r is not None:
                return r
        elif base in ("std::operator==", "std::operator!=", "std::operator<") and BS in full:
            x, y = self.text(ai, st, args[0]), self.text(ai, st, args[1])
            if x is not None and y is not None:
                r = x == y if base.endswith("==") else x != y if base.endswith("!=") else x < y
                return self.ret(I(int(r)), st)
        elif base == "std::operator+" and BS in full:
            l = []
            sig = full[full.rindex("std::operator+"):]
            for k, a in enumerate(args[1:3]):
                t = self.text(ai, st, a)
                if t is None and a[0] == "i" and "char" in sig:
                    t = chr(a[1] & 255)
                l.append(t)
            n = self.put(ai, st, args[0], None if None in l else "".join(l))
            return self.ret(None, n)
        elif base in ("strcmp", "strncmp", "strlen", "strchr", "strrchr", "strcasecmp"):
            x = self.text(ai, st, args[0])
            if base == "strlen":
                return None if x is None else self.ret(I(len(x)), st)
            if base in ("strcmp", "strncmp", "strcasecmp"):
                y = self.text(ai, st, args[1])
                if x is None or y is None:
                    return None
                if base == "strncmp":
                    k = self.num(ai, st, args[2])
                    if k is None:
                        return None
                    x, y = x[:k], y[:k]
                if base == "strcasecmp":
                    x, y = x.lower(), y.lower()
                return self.ret(I((x > y) - (x < y)), st)
            c = self.num(ai, st, args[1])
            if x is None or c is None:
                return None
            k = x.find(chr(c & 255)) if base == "strchr" else x.rfind(chr(c & 255))
            return self.ret(I(0) if k < 0 else ("s", ("chr", x, k)), st)
        return World.call(self, ai, st, inst, name, args)

    def order(self, ai, st, pred, a, b):
        if pred in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if y == I(0) and x[0] == "s" and isinstance(x[1], tuple) and x[1][0] == "chr":
                    return pred == "ne"
        return World.order(self, ai, st, pred, a, b)

    def guard(self, ai, st, inst, base, args):
        a = ai.addr(args[0])
        n = st.copy()
        if base == "__cxa_guard_acquire":
            done = st.mem.get(a)
            return self.ret(I(0 if done == I(1) else 1), st)
        if base == "__cxa_guard_release":
            n.mem[a] = I(1)
        return self.ret(None, n)

    def loaded(self, ai, st, a, val, size):
        if val is None and a[0][0] == "glob" and a[0][1].startswith("_ZGV"):
            return I(0)
        if val is not None and val[0] == "s" and isinstance(val[1], tuple) and val[1][0] == "str":
            return ("s", ("chr", val[1][1], 0)) if size == 8 else None
        if a[0][0] == "s" and isinstance(a[0][1], tuple) and a[0][1][0] == "chr" and size == 1 and isinstance(a[1], int):
            t, k = a[0][1][1] + "\0", a[0][1][2] + a[1]
            return I(ord(t[k])) if 0 <= k < len(t) else None
        return World.loaded(self, ai, st, a, val, size)

    def method(self, ai, st, inst, name, full, args):
        this = args[0] if args else None
        t = lambda k: self.text(ai, st, args[k]) if k < len(args) else None
        n = lambda k: self.num(ai, st, args[k]) if k < len(args) else None
        par = strip_templates(params(full))
        if name == "basic_string":
            if par in ("", "std::allocator const&"):
                return self.ret(None, self.put(ai, st, this, ""))
            if "initializer_list" in par or "iterator" in par:
                return None
            if par.startswith("unsigned long, char"):
                k, c = n(1), n(2)
                return self.ret(None, self.put(ai, st, this, None if k is None or c is None else chr(c & 255) * k))
            x = t(1)
            if x is not None and ("unsigned long" in par):
                p = [self.num(ai, st, a) for a in args[2:4] if True]
                nums = [self.num(ai, st, args[k]) for k in range(2, 2 + par.count("unsigned long"))]
                if None in nums:
                    x = None
                elif par.startswith("char const*"):
                    x = x[:nums[0]]
                elif nums[0] > len(x):
                    return [("throw", "_ZTISt12out_of_range", st)]
                else:
                    x = x[nums[0]:] if len(nums) == 1 or nums[1] < 0 else x[nums[0]:nums[0] + nums[1]]
            return self.ret(None, self.put(ai, st, this, x))
        if name == "~basic_string":
            s2 = st.copy()
            a = ai.addr(this)
            if a:
                s2.mem.pop(a, None)
            return self.ret(None, s2)
        if name in ("operator=", "assign"):
            if par == "char":
                c = n(1)
                x = None if c is None else chr(c & 255)
            elif par.count(",") == 0:
                x = t(1)
            elif "unsigned long" in par and t(1) is not None and all(self.num(ai, st, a) is not None for a in args[2:]):
                x, ks = t(1), [self.num(ai, st, a) for a in args[2:]]
                x = x[:ks[0]] if par.startswith("char const*") else x[ks[0]:] if len(ks) == 1 or ks[1] < 0 else x[ks[0]:ks[0] + ks[1]]
            else:
                x = None
            return self.ret(this, self.put(ai, st, this, x))
        if name in ("operator+=", "append", "push_back"):
            o = t(0)
            if par == "char":
                c = n(1)
                x = None if c is None else chr(c & 255)
            elif par.startswith("unsigned long, char"):
                x = None if n(1) is None or n(2) is None else chr(n(2) & 255) * n(1)
            elif par.startswith("char const*, unsigned long"):
                x = None if t(1) is None or n(2) is None else t(1)[:n(2)]
            elif par.count(",") == 0:
                x = t(1)
            elif "unsigned long, unsigned long" in par and t(1) is not None and n(2) is not None and n(3) is not None:
                x = t(1)[n(2):] if n(3) < 0 else t(1)[n(2):n(2) + n(3)]
            else:
                x = None
            return self.ret(this, self.put(ai, st, this, None if o is None or x is None else o + x))
        if name in ("clear", "pop_back"):
            o = t(0)
            return self.ret(None, self.put(ai, st, this, "" if name == "clear" else o[:-1] if o else None))
        if name == "substr":
            o, p, k = t(1), n(2), n(3)
            if o is None or p is None or k is None:
                return self.ret(None, self.put(ai, st, this, None))
            if p < 0 or p > len(o):
                return [("throw", "_ZTISt12out_of_range", st)]
            return self.ret(None, self.put(ai, st, this, o[p:] if k < 0 else o[p:p + k]))
        o = t(0)
        if o is None:
            return None
        if name in ("size", "length"):
            return self.ret(I(len(o)), st)
        if name == "empty":
            return self.ret(I(int(not o)), st)
        if name in ("c_str", "data", "begin", "cbegin"):
            return self.ret(("s", ("chr", o, 0)), st)
        if name in ("end", "cend"):
            return self.ret(("s", ("chr", o, len(o))), st)
        if name in ("operator[]", "at", "front", "back"):
            k = {"front": 0, "back": len(o) - 1}.get(name)
            if k is None:
                k = n(1)
            if k is None:
                return None
            if name == "at" and not 0 <= k < len(o):
                return [("throw", "_ZTISt12out_of_range", st)]
            return self.ret(("s", ("chr", o, k)), st)
        if name == "compare":
            if par.count(",") == 0:
                y, x = t(1), o
            elif n(1) is not None and n(2) is not None:
                y, x = t(3), o[n(1):] if n(2) < 0 else o[n(1):n(1) + n(2)]
                if par.count(",") > 2:
                    if par.count(",") == 3 and "char const*" in par and n(4) is not None and y is not None:
                        y = y[:n(4)]
                    else:
                        y = None
                if n(1) > len(o):
                    return [("throw", "_ZTISt12out_of_range", st)]
            else:
                y = None
            return None if y is None else self.ret(I((x > y) - (x < y)), st)
        if name in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "starts_with", "ends_with"):
            if par.startswith("char,") or par == "char":
                c = n(1)
                x = None if c is None else chr(c & 255)
            else:
                x = t(1)
            p = n(2) if len(args) > 2 else (0 if not name.startswith("r") and "last" not in name else -1)
            if par.count("unsigned long") == 2 and x is not None:
                x = x[:n(3)] if n(3) is not None else None
            if x is None or p is None:
                return None
            if name == "find":
                r = o.find(x, p) if 0 <= p else -1
            elif name == "rfind":
                r = o.rfind(x) if p < 0 else o.rfind(x, 0, p + len(x))
            elif name.startswith("find_first"):
                ok = (lambda c: c in x) if name.endswith("first_of") else (lambda c: c not in x)
                r = next((k for k in range(p, len(o)) if ok(o[k])), -1) if p >= 0 else -1
            elif name.startswith("find_last"):
                ok = (lambda c: c in x) if name.endswith("last_of") else (lambda c: c not in x)
                top = len(o) - 1 if p < 0 else min(p, len(o) - 1)
                r = next((k for k in range(top, -1, -1) if ok(o[k])), -1)
            else:
                return None
            return self.ret(I(r), st)
        return None
