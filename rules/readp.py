"""The PBF reader over a model of protobuf and zlib: a file is a list of blobs with their messages as trees; every accessor of a message
gives what the tree holds. What the reader delivers is recorded through the public interface of the objects. Nothing is executed."""
import re
from ir import strip_templates, AnalysisBroken, Undecided
from absint import I
from scenario import obj
from strings import S
from orders import sgn
from rules.readx import Doc, FILE, NAME, REC
from rules.steps import Run

MSG = re.compile(r"^(?:.*[ &*])?OSMPBF::(\w+)::(~?\w+)$")
ONE = {"granularity": 100, "date_granularity": 1000, "version": -1}
TEXTS = {"type", "s", "required_features", "optional_features", "writingprogram", "source", "raw", "zlib_data", "lzma_data"}
SUBS = {"stringtable", "info", "dense", "denseinfo", "bbox", "primitivegroup", "nodes", "ways", "relations", "changesets"}
IO = obj("=io")


class Big(str):
    """the bytes of a blob, of which only the length is known"""


class Pbf(Doc):
    """blobs: [{"type": name, "zip": bool, "block": tree}]"""
    def __init__(self, m, blobs, unique=True, stop=None, cuts=()):
        Doc.__init__(self, m, [], unique=unique, stop=stop)
        self.blobs, self.cuts = blobs, cuts
        self.at_tree = {}           # object standing for a message -> tree
        self.refs = {}

    def ref(self, t):
        """an object that stands for a tree or list"""
        k = id(t)
        if k not in self.refs:
            self.refs[k] = (obj("=msg%d" % len(self.refs)), t)
            self.at_tree[self.refs[k][0]] = t
        return self.refs[k][0]

    def io(self, st, k):
        v = st.mem.get((IO, k))
        return v[1] if v is not None else 0

    def tree(self, st, v, cls):
        """the tree of the message at an address"""
        if v in self.at_tree:
            return self.at_tree[v]
        if v[0] == "p" and v[2] == 0 and v[1] in self.at_tree:
            return self.at_tree[v[1]]
        if cls in ("BlobHeader", "Blob", "PrimitiveBlock", "HeaderBlock"):
            n = self.io(st, "blk")
            if cls == "BlobHeader":
                h = self.io(st, "head")
                if not h:
                    return None
                b = self.blobs[h - 1]
                return {"type": b["type"], "datasize": 1000}
            b = self.blobs[n - 1] if n else None
            if b is None:
                return None
            if cls == "Blob":
                return {"zlib_data": "Z", "raw_size": 5000} if b.get("zip", True) else {"raw": "R"}
            return b["block"]
        return None

    def number(self, ai, inst, v):
        t = ai.m.strs[inst.d["ty"]] if "ty" in inst.d else ""
        if t in ("i32", "i64", "i8"):
            return I(sgn(v & ((1 << int(t[1:])) - 1), int(t[1:])))
        return I(v)

    def give(self, ai, st, inst, path, v):
        if isinstance(v, str):
            o = obj("=str:%s" % path)
            s = st.copy()
            s.mem[(o, 0)] = S(v)
            return [("ret", o, s)]
        if isinstance(v, (dict, list)):
            return [("ret", self.ref(v), st)]
        return [("ret", self.number(ai, inst, int(v)), st)]

    def call(self, ai, st, inst, name, args):
        b = strip_templates(ai.m.base(inst) or name or "").replace("[abi:cxx11]", "")
        k = MSG.match(b)
        if k and args:
            r = self.message(ai, st, inst, k.group(1), k.group(2), args)
            if r is not None:
                return r
        if b.startswith("google::protobuf::"):
            f = b.rsplit("::", 1)[-1]
            if f in ("ParseFromArray", "ParsePartialFromArray"):
                return self.parse(ai, st, inst, args)
            t = self.at_tree.get(args[0]) if args else None
            if isinstance(t, list):
                if f in ("size",):
                    return [("ret", I(len(t)), st)]
                if f == "empty":
                    return [("ret", I(int(not t)), st)]
                if f in ("Get", "operator[]", "at"):
                    n = self.num(ai, st, args[1])
                    if n is None:
                        return None
                    if not 0 <= n < len(t):
                        self.wrong(inst, "element %d of an array of %d" % (n, len(t)))
                    if isinstance(t[n], int):
                        return None if "ptr" == ai.m.strs[inst.d["ty"]] else self.give(ai, st, inst, "", t[n])
                    return self.give(ai, st, inst, "%d:%d" % (id(t), n), t[n])
            if f == "VerifyVersion":
                return [("ret", None, st)]
        if b == "read":
            return self.input(ai, st, inst, args)
        if b in ("uncompress", "uncompress2"):
            return [("ret", I(0), st)]
        if b.startswith("std::pair") and b.endswith("::pair") and len(args) == 3:
            return None
        return Doc.call(self, ai, st, inst, name, args)

    def input(self, ai, st, inst, args):
        n = self.num(ai, st, args[2])
        a = ai.addr(args[1])
        blk, head, pos = self.io(st, "blk"), self.io(st, "head"), self.io(st, "pos")
        if n is None or a is None or n < 0:
            return None
        s = st.copy()
        if head == blk and pos < 4:
            if blk >= len(self.blobs):
                return [("ret", I(0), st)]
            n = min(n, 4 - pos)
            if pos == 0 and "size" in self.cuts:
                n = min(n, 1)
            ai.clear(s, a[0], a[1], a[1] + n)
            for q in range(n):
                s.mem[(a[0], a[1] + q)] = I((0, 0, 1, 44)[pos + q])
                self.csize[(a[0], a[1] + q)] = 1
            s.mem[(IO, "pos")] = I(pos + n)
            return [("ret", I(n), s)]
        return [("ret", I(n if "body" not in self.cuts or n < 2 else n // 2 if pos == 4 else n), s)]

    def parse(self, ai, st, inst, args):
        c = MSG.match(strip_templates(ai.m.base(inst) or ""))
        s = st.copy()
        blk, head = self.io(st, "blk"), self.io(st, "head")
        if c is None:
            # which message is it? the parts of a blob come in a fixed order
            if head == blk and self.io(st, "pos") == 4:
                s.mem[(IO, "head")] = I(head + 1)
            elif head > blk:
                s.mem[(IO, "blk")], s.mem[(IO, "pos")] = I(blk + 1), I(0)
        return [("ret", I(1), s)]

    def message(self, ai, st, inst, cls, f, args):
        if f in (cls, "~" + cls, "Clear", "default_instance") or f.startswith(("New", "MergeFrom", "CopyFrom")):
            return [("ret", None, st)] if "ty" not in inst.d else None
        if f in ("ParseFromArray", "ParsePartialFromArray"):
            return self.parse(ai, st, inst, args)
        t = self.tree(st, args[0], cls)
        if t is None or not isinstance(t, dict):
            return None
        if f.startswith("has_"):
            return [("ret", I(int(f[4:] in t)), st)]
        if f.endswith("_size") and f not in t and f != "raw_size":
            return [("ret", I(len(t.get(f[:-5], []))), st)]
        path = "%d:%s" % (id(t), f)
        if len(args) > 1:
            n = self.num(ai, st, args[1])
            l = t.get(f, [])
            if n is None:
                return None
            if not 0 <= n < len(l):
                self.wrong(inst, "element %d of the %d elements of %s" % (n, len(l), f))
            return self.give(ai, st, inst, path + ":%d" % n, l[n])
        v = t.get(f)
        if v is None:
            if f in TEXTS:
                v = ""
            elif "ty" in inst.d and ai.m.strs[inst.d["ty"]] == "ptr":
                v = t.setdefault("?" + f, {} if f in SUBS and f not in ("primitivegroup", "nodes", "ways", "relations") else [])
            else:
                v = ONE.get(f, 0)
        return self.give(ai, st, inst, path, v)

    def no_havoc(self, ai, st, addr, inst):
        return (ai.m.base(inst) or "").startswith(("OSMPBF::", "google::", "uncompress")) or Doc.no_havoc(self, ai, st, addr, inst)


def read(m, w, fn="drv_pbf"):
    r = Run(m, w)
    if r.step("drv_file", FILE, NAME, cells={(NAME, 0): S("x.osm.pbf")}) != "ret":
        return None
    out = r.step(fn, FILE, REC)
    if out is None or out == "bad":
        return out if out is None else ("bad", r.broke, r.auto)
    return ("ret", None, r.last) if out == "ret" else ("throw", out[1], r.last)
