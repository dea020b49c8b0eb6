"""Type-level witnesses: programs that would duplicate ownership or modify a stored object must be rejected by the compiler,
each next to a control program that differs only in the offending expression and must be accepted. Copying a file object,
which is allowed, must not take over the descriptor or child process: provenance of the copied members in the IR."""
import os, subprocess, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
from ir import flags, translate, AnalysisBroken, INC
from terms import Terms, nocast, show
from rules.model import root, off

H = "Probe"
OWNERS = {  # name: (type, needs base class accessible?)
    "reader for XML": "Osmium::Input::XML<Probe>", "reader for PBF": "Osmium::Input::PBF<Probe>",
    "writer for XML": "Osmium::Output::XML", "writer for PBF": "Osmium::Output::PBF", "output handler": "Osmium::Output::Handler",
    "handler base": "Osmium::Handler::Base", "id store Vector": "Osmium::Storage::ById::Vector<Position>", "id store StlMap": "Osmium::Storage::ById::StlMap<Position>",
    "id store SparseTable": "Osmium::Storage::ById::SparseTable<Position>", "id store FixedArray": "Osmium::Storage::ById::FixedArray<Position>",
    "id store MmapAnon": "Osmium::Storage::ById::MmapAnon<Position>", "id store MmapFile": "Osmium::Storage::ById::MmapFile<Position>",
    "object store": "Osmium::Storage::ObjectStore"}
ABSTRACT = {"reader base": "Osmium::Input::Base<Probe>", "output base": "Osmium::Output::Base", "id store base": "Osmium::Storage::ById::Base<Position>"}

RI = "Osmium::Relations::RelationInfo& ri = mk<Osmium::Relations::RelationInfo>();"
FEED = """
struct %s : Osmium::Handler::Base {
    void node(const shared_ptr<Osmium::OSM::Node %s>&);
    void way(const shared_ptr<Osmium::OSM::Way %s>&);
    void relation(const shared_ptr<Osmium::OSM::Relation %s>&);
};
"""
CONSTNESS = {   # what: (before function, body that must compile, body that must not)
    "relation of a RelationInfo is modified": ("", RI + " ri.relation()->id();", RI + " mk<Osmium::Relations::RelationInfo>().relation()->id(osm_object_id_t(7));"),
    "relation of a RelationInfo is taken as modifiable": ("", RI + " shared_ptr<Osmium::OSM::Relation const> p = ri.relation();", RI + " shared_ptr<Osmium::OSM::Relation> p = ri.relation();"),
    "relation of a RelationInfo is replaced": ("", RI + " ri.relation().get();", RI + " ri.relation().reset();"),
    "member object of a RelationInfo is modified": ("", RI + " ri.members()[0]->id();", RI + " ri.members()[0]->id(osm_object_id_t(7));"),
    "member object of a RelationInfo is taken as modifiable": ("", RI + " shared_ptr<Osmium::OSM::Object const> p = ri.members()[0];", RI + " shared_ptr<Osmium::OSM::Object> p = ri.members()[0];"),
    "member list of a RelationInfo is modified": ("", RI + " ri.members().size();", RI + " ri.members().clear();"),
}
for k, K in (("node", "Node"), ("way", "Way"), ("relation", "Relation")):
    TAKES = "struct M { void init(Osmium::OSM::Meta&) {} void before_nodes() {} void after_nodes() {} void before_ways() {} void after_ways() {} void before_relations() {} void after_relations() {} void final() {}\n" + \
        "\n".join("void %s(const shared_ptr<Osmium::OSM::%s %s>&) {}" % (a, A, "const" if a != k else "CONSTQ") for a, A in (("node", "Node"), ("way", "Way"), ("relation", "Relation"))) + "};\n"
    CONSTNESS["an object store feeds modifiable %ss" % k] = (TAKES, "M g; Osmium::OSM::Meta m; mk<Osmium::Storage::ObjectStore>().feed_to(&g, m);", None)
    CONSTNESS["merging an object store delivers modifiable %ss" % k] = (
        TAKES, "M g; Osmium::OSM::Meta m; Osmium::Storage::ObjectStore::ApplyHandler<M> h(mk<Osmium::Storage::ObjectStore>(), g, m); h.after_%ss();" % k, None)
    CONSTNESS["the chained handler of an assembler gets modifiable %ss" % k] = (
        TAKES + "struct A : Osmium::Relations::Assembler<A, Osmium::Relations::RelationInfo, true, true, true, M> { A(M& m) : Assembler(m) {} void complete_relation(Osmium::Relations::RelationInfo&) {} using Assembler::node_not_in_any_relation; using Assembler::way_not_in_any_relation; using Assembler::relation_not_in_any_relation; friend class HandlerPass1; friend class HandlerPass2; };",
        "mk<A>().handler_pass2().%s(mk<shared_ptr<Osmium::OSM::%s const> >());" % (k, K), None)
# what a const object hands out is const, too
for what, expr in (("tags of a %s", "tags().add(\"k\", \"v\")"), ("id of a %s", "id(osm_object_id_t(1))"), ("version of a %s", "version(osm_version_t(1))"), ("user of a %s", "user(\"u\")"),
                   ("timestamp of a %s", "timestamp(time_t(1))"), ("end time of a %s", "endtime(time_t(1))"), ("visibility of a %s", "visible(true)")):
    for k, K in (("node", "Node"), ("way", "Way"), ("relation", "Relation")):
        CONSTNESS["the " + what % k + " is modified through const"] = ("", "mk<Osmium::OSM::%s>().%s;" % (K, expr if "member list" not in what and "first member" not in what else "members().size()"), "mk<Osmium::OSM::%s const>().%s;" % (K, expr))
for what, K, expr in (("position of a node", "Node", "position(Position(1.0, 1.0))"), ("node list of a way", "Way", "nodes().add(osm_object_id_t(1))"), ("way nodes of a way", "Way", "nodes()[0].position(Position(1.0, 1.0))"),
                      ("nodes of a way", "Way", "add_node(osm_object_id_t(1))"), ("first node of a way", "Way", "nodes().begin()->position(Position(1.0, 1.0))"),
                      ("members of a relation", "Relation", "add_member('n', 1, \"\")"), ("member list of a relation", "Relation", "members().add_member('n', 1, \"\")"),
                      ("first member of a relation", "Relation", "members().begin()->ref(1)")):
    CONSTNESS["the " + what + " is modified through const"] = ("", "mk<Osmium::OSM::%s>().%s;" % (K, expr if "member list" not in what and "first member" not in what else "members().size()"), "mk<Osmium::OSM::%s const>().%s;" % (K, expr))


def programs():
    """-> [(key, message, control, witness)]"""
    out = []
    pre = '#include "types.hpp"\n'
    for n, t in OWNERS.items():
        out.append(("copy:" + n, "a %s can be copied" % n, pre + "void f() { %s* p = &mk<%s>(); (void)p; }" % (t, t), pre + "void f() { %s q(mk<%s>()); }" % (t, t)))
        out.append(("assign:" + n, "a %s can be assigned" % n, pre + "void f() { %s* p = &mk<%s>(); (void)p; }" % (t, t), pre + "void f() { mk<%s>() = mk<%s>(); }" % (t, t)))
    for n, t in ABSTRACT.items():
        out.append(("copy:" + n, "the %s can be copied by derived classes" % n, pre + "static_assert(sizeof(%s) > 0, \"\");" % t,
                    pre + "static_assert(std::is_copy_assignable<%s>::value, \"\");" % t))
    for n, (head, good, bad) in CONSTNESS.items():
        if bad is None:
            out.append(("const:" + n, n, pre + head.replace("CONSTQ", "const") + "\nvoid f() { %s }" % good, pre + head.replace("CONSTQ", "") + "\nvoid f() { %s }" % good))
        else:
            out.append(("const:" + n, n, pre + head + "\nvoid f() { %s }" % good, pre + head + "\nvoid f() { %s }" % bad))
    return out


def comp(src, tmp, pch):
    f = tempfile.NamedTemporaryFile("w", suffix=".cpp", dir=tmp, delete=False)
    f.write(src)
    f.close()
    r = subprocess.run(["clang++-18"] + flags() + ["-include-pch", pch, "-fsyntax-only", f.name], capture_output=True, text=True)
    m = re.search(r"error: (.*)", r.stderr)
    return r.returncode, (m.group(1) if m else r.stderr[:200])


def copied(ctx):
    """copying or assigning a file object does not take over descriptor and child process"""
    m = translate("file.cpp", keep=[r"^Osmium::OSMFile::(close|execute|open)"])
    fd = m.fn("drv_file_fd")
    r = [b[-1] for b in fd.blocks if b[-1].op == "ret"]
    t = nocast(Terms(m, fd).t(r[0].ops[0]))
    if t[0] != "load" or root(t[1]) != ("arg", 0):
        raise AnalysisBroken("cannot find the descriptor of a file object")
    cells = {"descriptor": off(t[1])}
    cl = m.fn("drv_file_close")
    for f in [cl] + [x for x in m.fns.values() if "OSMFile::close" in x.dem]:
        T = Terms(m, f)
        for i in f.calls():
            if m.short(i) in ("waitpid", "wait4", "kill") and i.args:
                t = nocast(T.t(i.args[0]))
                if t[0] == "load" and root(t[1]) == ("arg", 0):
                    cells["child process"] = off(t[1])
    if len(cells) < 2:
        raise AnalysisBroken("cannot find the child process of a file object")
    for drv, what in (("drv_file_copy", "copying"), ("drv_file_assign", "assigning")):
        fn = m.fns.get(drv)
        if fn is None:
            continue
        T = Terms(m, fn)
        for n, o in cells.items():
            hit = set()
            for b in fn.blocks:
                for i in b:
                    if i.op == "store":
                        a, v = T.t(i.ops[1]), nocast(T.t(i.ops[0]))
                        if root(a) == ("arg", 0) and off(a) == o:
                            hit.add(i.id)
                            bad = v[0] == "load" and root(v[1]) == ("arg", 1)
                            ctx.require(not bad, "file:%s:%s" % (what, n), "%s a file object takes over the %s of the other one, at %s" % (what, n, m.loc(i)))
                    elif i.is_call and (m.short(i) or "").startswith("llvm.mem") and len(i.args) > 2:
                        a, s, k = T.t(i.args[0]), T.t(i.args[1]), T.t(i.args[2])
                        if root(a) == ("arg", 0) and root(s) == ("arg", 1) and k[0] == "c" and off(a) <= o < off(a) + k[1]:
                            ctx.require(False, "file:%s:%s" % (what, n), "%s a file object takes over the %s of the other one, at %s" % (what, n, m.loc(i)))
            ctx.count("members of file objects")
            if drv == "drv_file_copy":
                ctx.require(bool(hit), "file:%s:%s:unset" % (what, n), "%s a file object leaves the %s undefined" % (what, n))


def run(ctx):
    ctx.rules = ["a witness program that copies an owner or modifies a stored object compiles", "copying a file object takes over its descriptor or child process"]
    tmp = tempfile.mkdtemp(prefix="verif-c23-")
    try:
        ps = programs()
        pch = os.path.join(tmp, "types.pch")
        hdr = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers", "types.hpp")
        r = subprocess.run(["clang++-18"] + flags() + ["-x", "c++-header", hdr, "-o", pch], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("types.hpp does not compile: " + r.stderr[:1000])
        with ThreadPoolExecutor(8) as ex:
            ctl = list(ex.map(lambda p: comp(p[2], tmp, pch), ps))
            wit = list(ex.map(lambda p: comp(p[3], tmp, pch), ps))
        for p, (c, ce), (w, we) in zip(ps, ctl, wit):
            if c:
                raise AnalysisBroken("control program for '%s' does not compile: %s" % (p[1], ce))
            ctx.count("witness programs")
            ctx.require(w != 0, p[0], "%s: the witness program compiles\n%s" % (p[1], "\n".join("      " + l for l in p[3].split("\n")[1:])))
            if w:
                ctx.ok("%s: rejected (%s)" % (p[1], we[:80]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    copied(ctx)
    ctx.at_least("witness programs", 30)
    ctx.at_least("members of file objects", 4)
