"""Every header is compiled first in a translation unit of its own (and included twice), in several configurations, and the
linkage of everything the unit defines is inspected: a strong external definition can only come from a header and breaks
programs that use it in two source files. Headers that need libraries which are not installed are parsed with empty
stand-ins for the missing files and their syntax tree is searched for non-inline definitions instead."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from ir import INC, flags, AnalysisBroken

WEAK = re.compile(r"\b(linkonce|linkonce_odr|weak|weak_odr|internal|private|available_externally|appending|external|extern_weak)\b")
CONFIG = {"all features": ["-DOSMIUM_WITH_DEBUG", "-DOSMIUM_WITH_PBF_INPUT", "-DOSMIUM_WITH_XML_INPUT"],
          "no features": [], "release": ["-DNDEBUG", "-DOSMIUM_WITH_PBF_INPUT", "-DOSMIUM_WITH_XML_INPUT"]}
EXTRA = [[], ["-DOSMIUM_OSM_AREA_HPP"], ["-DOSMIUM_OSM_AREA_HPP", "-DOSMIUM_GEOMETRY_SHPLIB_HPP", "-include", "osmium/geometry.hpp"]]
QUERY = """set output diag
match functionDecl(isDefinition(), unless(isInline()), unless(isConstexpr()), unless(isStaticStorageClass()), unless(isInAnonymousNamespace()), unless(cxxMethodDecl(hasParent(cxxRecordDecl()))), unless(hasParent(functionTemplateDecl())), unless(hasAncestor(classTemplateDecl())), unless(hasAncestor(friendDecl())), isExpansionInFileMatching("%(inc)s"), unless(isImplicit()), unless(isTemplateInstantiation()), unless(cxxMethodDecl(ofClass(isTemplateInstantiation()))), unless(cxxMethodDecl(ofClass(hasParent(classTemplateDecl())))))
match varDecl(isDefinition(), hasGlobalStorage(), unless(hasAncestor(functionDecl())), unless(isStaticStorageClass()), unless(isConstexpr()), unless(hasType(isConstQualified())), unless(isInAnonymousNamespace()), isExpansionInFileMatching("%(inc)s"), unless(isTemplateInstantiation()), unless(hasParent(cxxRecordDecl())))
"""


def first_error(err):
    m = re.search(r"^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$", err, re.M)
    return (m.group(1), m.group(2), m.group(3)) if m else None


def missing(err):
    m = re.search(r"fatal error: '(.*?)' file not found", err)
    return m.group(1) if m else None


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return r.stdout.split("\n") if r.returncode == 0 else names


def strong(ll):
    out = []
    for l in ll.split("\n"):
        if l.startswith("define "):
            m = re.match(r"define (.*?)@(\"[^\"]+\"|[\w.$]+)\(", l)
            if m and not WEAK.search(m.group(1)):
                out.append(("function", m.group(2).strip('"')))
        elif l.startswith("@"):
            m = re.match(r"@(\"[^\"]+\"|[\w.$]+) = (.*)$", l)
            if m and not WEAK.search(m.group(2).split(" global ")[0].split(" constant ")[0]) and (" global " in m.group(2) or " constant " in m.group(2)):
                out.append(("variable", m.group(1).strip('"')))
    return out


UNDECL = re.compile(r"undeclared identifier|unknown type name|no member named|no template named|no type named|implicit instantiation of undefined|incomplete type")


def foreign(h, seen=None):
    """does a header include headers of libraries of which no fitting version may be installed?"""
    seen = set() if seen is None else seen
    if h in seen or not os.path.exists(os.path.join(INC, h)):
        return False
    seen.add(h)
    inc = re.findall(r"^[ \t]*#[ \t]*include[ \t]*<(.*?)>", open(os.path.join(INC, h), errors="replace").read(), re.M)
    return any(re.match(r"geos/|v8|ogr|shapefil|unicode/", x) or x.startswith("osmium") and foreign(x, seen) for x in inc)


def one(job):
    """-> dict(header, config, status, ...)"""
    h, conf, copts, tmp = job
    src = os.path.join(tmp, re.sub(r"\W", "_", h + conf) + ".cpp")
    open(src, "w").write("#include <%s>\n#include <%s>\n" % (h, h))
    need = None
    for ex in EXTRA:
        r = subprocess.run(["clang++-18"] + flags() + copts + ex + ["-O0", "-S", "-emit-llvm", src, "-o", src + ".ll"], capture_output=True, text=True)
        if r.returncode == 0:
            d = strong(open(src + ".ll").read())
            os.unlink(src + ".ll")
            return dict(h=h, conf=conf, st="compiled" if not ex else "compiled with stand-ins", defs=d)
        mi = missing(r.stderr)
        fe = first_error(r.stderr)
        if not ex:
            if mi is None or mi.startswith("osmium"):
                if mi or not foreign(h) or fe and UNDECL.search(fe[2]) and not re.search(r"geos|v8|OGR|SHP|DBF", fe[2]):
                    return dict(h=h, conf=conf, st="error", err=fe or (h, "?", r.stderr[:200]))
                continue        # the installed version of a library does not fit
            need = mi
    # libraries are missing: syntax tree with empty stand-ins
    stub = os.path.join(tmp, "stub-" + os.path.basename(src))
    os.makedirs(stub)
    base = flags() + copts + ["-I" + stub]
    for _ in range(80):
        r = subprocess.run(["clang++-18"] + base + ["-fsyntax-only", src], capture_output=True, text=True)
        mi = missing(r.stderr)
        if mi is None:
            break
        if mi.startswith("osmium") or ".." in mi:
            return dict(h=h, conf=conf, st="error", err=first_error(r.stderr))
        p = os.path.join(stub, mi)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
    q = os.path.join(stub, "q.txt")
    open(q, "w").write(QUERY % dict(inc=os.path.basename(os.path.dirname(INC)) + "/include/"))
    r = subprocess.run(["clang-query-18", "-f", q, src, "--"] + base, capture_output=True, text=True)
    if "matches." not in r.stdout and "match." not in r.stdout:
        return dict(h=h, conf=conf, st="unanalysed", err=r.stderr[:300])
    found = [x for x in re.findall(r"^(\S+?):(\d+):\d+: note: \"root\" binds here\n *\d+ \| *(.*)$", r.stdout, re.M) if not re.match(r"(inline|template|static|extern|friend|typedef)\b", x[2])]
    return dict(h=h, conf=conf, st="parsed", found=found, need=need)


def headers():
    out = []
    for d, _, fs in os.walk(INC):
        for f in sorted(fs):
            if f.endswith(".hpp"):
                out.append(os.path.relpath(os.path.join(d, f), INC))
    return sorted(out)


def run(ctx):
    ctx.rules = ["a header does not compile when included first", "a header cannot be included twice", "a header defines a function or variable with strong external linkage",
                 "two headers use the same include guard", "headers conflict with each other"]
    ctx.assumptions = ["headers that need libraries which are not installed are only searched for non-inline definitions"]
    hs = headers()
    if len(hs) < 30:
        raise AnalysisBroken("only %d headers found" % len(hs))
    confs = list(CONFIG) if ctx.thorough else ["all features", "no features"]
    tmp = tempfile.mkdtemp(prefix="verif-c22-")
    try:
        jobs = [(h, c, CONFIG[c], tmp) for c in confs for h in hs]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
        full = set()
        for r in res:
            h = r["h"]
            ctx.count("headers " + r["st"])
            if r["st"] == "unanalysed":
                continue
            if r["st"] == "error":
                f, l, e = r["err"]
                ctx.require(False, "alone:" + h, "%s cannot be included first in a source file (%s): %s:%s: %s" % (h, r["conf"], f.replace(INC + "/", ""), l, e))
                continue
            ctx.ok("%s compiles on its own" % h)
            if r["st"] == "compiled":
                full.add(h)
            if "defs" in r:
                dm = demangle([n for _, n in r["defs"]]) if r["defs"] else []
                for (k, n), d in zip(r["defs"], dm):
                    ctx.violation("linkage:%s" % n, "%s %s is defined with external linkage in the headers included by %s, two source files including it do not link" % (k, d, h))
                ctx.ok("definitions in %s" % h, not r["defs"])
            for f, l, t in r.get("found", ()):
                ctx.violation("linkage:%s:%s" % (os.path.relpath(f, INC), t.strip()[:60]), "non-inline definition in %s:%s: %s" % (os.path.relpath(f, INC), l, t.strip()))
        # guards
        guards = {}
        for h in hs:
            m = re.search(r"^[ \t]*#[ \t]*ifndef[ \t]+(\w+)[ \t]*\n[ \t]*#[ \t]*define[ \t]+(\w+)", re.sub(r"/\*.*?\*/", "", open(os.path.join(INC, h), errors="replace").read(), flags=re.S), re.M)
            if m and m.group(1) == m.group(2):
                guards.setdefault(m.group(1), []).append(h)
                ctx.count("include guards")
        for g, l in guards.items():
            ctx.require(len(l) == 1, "guard:" + g, "%s have the same include guard %s, only the first one included takes effect" % (" and ".join(l), g))
        # all together, both orders
        for order, hh in (("forward", sorted(full)), ("backward", sorted(full, reverse=True))):
            src = os.path.join(tmp, order + ".cpp")
            open(src, "w").write("".join("#include <%s>\n" % h for h in hh))
            r = subprocess.run(["clang++-18"] + flags() + CONFIG["all features"] + ["-fsyntax-only", src], capture_output=True, text=True)
            fe = first_error(r.stderr)
            if r.returncode and not fe:
                raise AnalysisBroken("cannot compile all headers: " + r.stderr[:300])
            if fe:
                ctx.require(False, "together:%s:%s" % (os.path.relpath(fe[0], INC), fe[2][:60]), "all headers in one source file (%s order): %s:%s: %s" % (order, os.path.relpath(fe[0], INC), fe[1], fe[2]))
            ctx.ok("all headers in one source file, " + order, r.returncode == 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.count("headers", len(hs))
    ctx.at_least("headers compiled", 40)
