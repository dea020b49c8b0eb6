// irdump: normalise a bitcode module (inline everything that comes from the
// analysed repository, promote memory to SSA) and dump the result as JSON for the
// Python analyses in /verif/engine.  It never executes the code it reads.
//
// usage: irdump in.bc out.json --prefix DIR [--keep REGEX] [--also REGEX]
//                [--root REGEX] [--all]
//   functions whose definition lies under DIR are inlined everywhere, except those
//   whose demangled name matches --keep; functions from elsewhere stay opaque calls
//   except those whose demangled name matches --also.
//   dumped: functions whose linkage name matches --root, functions whose address is
//   taken by repository code, with --all every repository function.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/ValueTracking.h"
#include <map>
#include <set>
#include <regex>
#include <string>
#include <vector>
#include <cstdio>
using namespace llvm;

static std::string prefix_dir, drv_dir;
static std::vector<std::regex> keep_re, also_re, root_re;
static bool dump_all = false;

static bool matches(const std::vector<std::regex>& v, const std::string& s) {
    for (auto& r : v) if (std::regex_search(s, r)) return true;
    return false;
}

static std::string file_of(const DIScope* s) {
    if (!s || !s->getFile()) return "";
    std::string f = s->getFile()->getFilename().str();
    if (!f.empty() && f[0] != '/') f = s->getFile()->getDirectory().str() + "/" + f;
    // normalise a/./b and a/b/../c
    std::vector<std::string> parts; std::string cur;
    for (size_t i = 0; i <= f.size(); ++i) {
        if (i == f.size() || f[i] == '/') {
            if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
            else if (!cur.empty() && cur != ".") parts.push_back(cur);
            cur.clear();
        } else cur += f[i];
    }
    std::string r; for (auto& p : parts) r += "/" + p;
    return r;
}

static std::map<const Function*, std::string> dem_cache;
static const std::string& dem(const Function& F) {
    auto it = dem_cache.find(&F);
    if (it != dem_cache.end()) return it->second;
    return dem_cache[&F] = demangle(F.getName());
}

static bool in_repo(const Function& F) {
    if (F.isDeclaration()) return false;
    auto* sp = F.getSubprogram();
    if (!sp) return false;
    std::string f = file_of(sp);
    if (f.rfind(prefix_dir, 0) == 0) return true;
    return false;
}
static bool in_drv(const Function& F) {
    if (F.isDeclaration()) return false;
    auto* sp = F.getSubprogram();
    return sp && !drv_dir.empty() && file_of(sp).rfind(drv_dir, 0) == 0;
}
// implicit members (defaulted constructors, destructors, assignment) have a subprogram in
// the class's file; thunks and global initialisers may have none.
static bool synthetic(const Function& F) {
    if (F.isDeclaration() || F.getSubprogram()) return false;
    return F.getName().starts_with("__cxx_global") || F.getName().starts_with("_GLOBAL__");
}

struct Strs {
    std::map<std::string,int> m; std::vector<std::string> v;
    int get(const std::string& s) { auto it = m.find(s); if (it != m.end()) return it->second; int n = v.size(); m[s] = n; v.push_back(s); return n; }
};
static Strs strs;
struct Locs {
    std::map<const DILocation*, int> m; std::vector<std::array<int,4>> v; // file,line,func,inlinedAt
    int get(const DILocation* l) {
        if (!l) return -1;
        auto it = m.find(l); if (it != m.end()) return it->second;
        int ia = l->getInlinedAt() ? get(l->getInlinedAt()) : -1;
        auto* sp = l->getScope()->getSubprogram();
        std::string fn = sp ? (sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName())) : "";
        int n = v.size();
        v.push_back({strs.get(file_of(l->getScope())), (int)l->getLine(), strs.get(fn), ia});
        m[l] = n; return n;
    }
};
static Locs locs;
static std::string tystr(Type* t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return s; }

struct Dumper {
    Module& M; const DataLayout& DL;
    std::set<const GlobalVariable*> globals; std::set<const Function*> fns;
    Dumper(Module& m) : M(m), DL(m.getDataLayout()) {}

    json::Value cst(const Constant* c, int depth = 0) {
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            if (ci->getBitWidth() <= 64) return json::Object{{"c", ci->getSExtValue()}};
            SmallString<40> s; ci->getValue().toStringSigned(s); return json::Object{{"big", s.str().str()}};
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) {
            APFloat a = cf->getValueAPF(); bool li;
            a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            char b[64]; snprintf(b, sizeof b, "%.17g", a.convertToDouble()); return json::Object{{"f", std::string(b)}};
        }
        if (isa<ConstantPointerNull>(c)) return json::Object{{"null", 1}};
        if (auto* f = dyn_cast<Function>(c)) { fns.insert(f); return json::Object{{"fn", f->getName().str()}}; }
        if (auto* g = dyn_cast<GlobalVariable>(c)) { globals.insert(g); return json::Object{{"g", g->getName().str()}}; }
        if (auto* a = dyn_cast<GlobalAlias>(c)) return cst(a->getAliasee(), depth);
        if (isa<UndefValue>(c)) return json::Object{{"undef", 1}};
        if (isa<ConstantAggregateZero>(c)) return json::Object{{"zero", (int64_t)DL.getTypeAllocSize(c->getType())}};
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            if (auto* gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (gep->accumulateConstantOffset(DL, off))
                    return json::Object{{"gep", cst(cast<Constant>(gep->getPointerOperand()))}, {"off", off.getSExtValue()}};
            }
            json::Array ops; for (auto& o : ce->operands()) ops.push_back(cst(cast<Constant>(o), depth));
            return json::Object{{"ce", ce->getOpcodeName()}, {"ops", std::move(ops)}};
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            if (cd->isString()) {
                std::string s = cd->getAsString().str(), h; static const char* x = "0123456789abcdef";
                for (unsigned char ch : s) { h += x[ch >> 4]; h += x[ch & 15]; }
                return json::Object{{"strhex", h}};
            }
            json::Array a; for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(cst(cd->getElementAsConstant(i), depth + 1));
            return json::Object{{"arr", std::move(a)}};
        }
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
            json::Array a; for (auto& o : ca->operands()) a.push_back(cst(cast<Constant>(o), depth + 1));
            return json::Object{{"arr", std::move(a)}};
        }
        std::string s; raw_string_ostream o(s); c->printAsOperand(o); return json::Object{{"k", s}};
    }
    // constant initialiser as [offset, size, value] cells
    void flat(const Constant* c, uint64_t off, json::Array& out) {
        Type* t = c->getType();
        if (auto* st = dyn_cast<StructType>(t)) {
            const StructLayout* l = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) if (auto* e = c->getAggregateElement(i)) flat(e, off + l->getElementOffset(i), out);
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(t)) {
            uint64_t w = DL.getTypeAllocSize(at->getElementType());
            for (uint64_t i = 0; i < at->getNumElements(); ++i) if (auto* e = c->getAggregateElement(i)) flat(e, off + i * w, out);
            return;
        }
        out.push_back(json::Array{(int64_t)off, (int64_t)DL.getTypeStoreSize(t), c->isNullValue() && t->isPointerTy() ? json::Value(json::Object{{"null", 1}}) : cst(c)});
    }
    std::map<const Value*, int> id;
    json::Value op(const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) return cst(c);
        if (auto* a = dyn_cast<Argument>(v)) return json::Object{{"a", (int64_t)a->getArgNo()}};
        if (auto* b = dyn_cast<BasicBlock>(v)) return json::Object{{"b", id[b]}};
        if (auto* i = dyn_cast<Instruction>(v)) return json::Object{{"i", id[i]}};
        if (isa<MetadataAsValue>(v)) return json::Object{{"md", 1}};
        return json::Object{{"k", "?"}};
    }
    json::Value fn(Function& F) {
        id.clear(); int n = 0;
        for (auto& B : F) { id[&B] = n++; }
        n = 0;
        for (auto& B : F) for (auto& I : B) id[&I] = n++;
        json::Array blocks;
        for (auto& B : F) {
            json::Array insts;
            for (auto& I : B) {
                if (isa<DbgInfoIntrinsic>(I)) {
                    if (auto* dd = dyn_cast<DbgVariableIntrinsic>(&I)) {
                        (void)dd;
                    }
                    continue;
                }
                json::Object o;
                o["id"] = id[&I]; o["op"] = I.getOpcodeName();
                if (I.getDebugLoc()) o["loc"] = locs.get(I.getDebugLoc().get());
                if (!I.getType()->isVoidTy()) o["ty"] = strs.get(tystr(I.getType()));
                if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                    MapVector<Value*, APInt> var; APInt off(64, 0);
                    if (g->collectOffset(DL, 64, var, off)) {
                        o["base"] = op(g->getPointerOperand()); o["off"] = off.getSExtValue();
                        json::Array va; for (auto& kv : var) va.push_back(json::Array{op(kv.first), kv.second.getSExtValue()});
                        o["var"] = std::move(va);
                        o["ety"] = strs.get(tystr(g->getSourceElementType()));
                    }
                } else if (auto* p = dyn_cast<PHINode>(&I)) {
                    json::Array inc; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
                        inc.push_back(json::Array{id[p->getIncomingBlock(i)], op(p->getIncomingValue(i))});
                    o["inc"] = std::move(inc);
                } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                        auto k = ii->getIntrinsicID();
                        if (k == Intrinsic::lifetime_start || k == Intrinsic::lifetime_end || k == Intrinsic::experimental_noalias_scope_decl) continue;
                    }
                    auto* callee = cb->getCalledOperand()->stripPointerCasts();
                    o["callee"] = op(callee);
                    json::Array as; for (auto& a : cb->args()) as.push_back(op(a.get()));
                    o["args"] = std::move(as);
                    json::Array dr; for (unsigned i = 0; i < cb->arg_size(); ++i) dr.push_back((int64_t)cb->getParamDereferenceableBytes(i)); o["deref"] = std::move(dr);
                    if (cb->doesNotReturn()) o["noret"] = 1;
                    if (cb->doesNotThrow()) o["nothrow"] = 1;
                    for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->paramHasAttr(i, Attribute::StructRet)) o["sret"] = (int)i;
                    if (auto* inv = dyn_cast<InvokeInst>(&I)) { o["normal"] = id[inv->getNormalDest()]; o["unwind"] = id[inv->getUnwindDest()]; }
                } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
                    json::Array cl; for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                        auto* c = lp->getClause(i);
                        cl.push_back(json::Object{{lp->isCatch(i) ? "catch" : "filter", cst(c)}});
                    }
                    o["clauses"] = std::move(cl); o["cleanup"] = lp->isCleanup();
                } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                    json::Array s; for (unsigned k = 0; k < br->getNumSuccessors(); ++k) s.push_back(id[br->getSuccessor(k)]); o["succ"] = std::move(s);
                    if (br->isConditional()) o["ops"] = json::Array{op(br->getCondition())};
                } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                    o["ops"] = json::Array{op(sw->getCondition())};
                    json::Array cs; for (auto& c : sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), id[c.getCaseSuccessor()]});
                    o["cases"] = std::move(cs); o["default"] = id[sw->getDefaultDest()];
                } else {
                    json::Array ops; for (auto& x : I.operands()) ops.push_back(op(x.get())); o["ops"] = std::move(ops);
                    if (auto* c = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                        o["cty"] = strs.get(tystr(c->getOperand(0)->getType())); }
                    if (auto* a = dyn_cast<AllocaInst>(&I)) { o["aty"] = strs.get(tystr(a->getAllocatedType())); o["size"] = (int64_t)DL.getTypeAllocSize(a->getAllocatedType()); o["name"] = a->getName().str(); }
                    if (auto* s = dyn_cast<StoreInst>(&I)) { o["sty"] = strs.get(tystr(s->getValueOperand()->getType())); o["size"] = (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType()); }
                    if (auto* l = dyn_cast<LoadInst>(&I)) o["size"] = (int64_t)DL.getTypeStoreSize(l->getType());
                    if (auto* e = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : e->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
                    if (auto* e = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : e->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
                    if (auto* c = dyn_cast<CastInst>(&I)) o["from"] = strs.get(tystr(c->getSrcTy()));
                    if (auto* b = dyn_cast<OverflowingBinaryOperator>(&I)) { if (b->hasNoSignedWrap()) o["nsw"] = 1; if (b->hasNoUnsignedWrap()) o["nuw"] = 1; }
                }
                insts.push_back(std::move(o));
            }
            blocks.push_back(json::Object{{"id", id[&B]}, {"insts", std::move(insts)}});
        }
        json::Array at; for (auto& a : F.args()) at.push_back(strs.get(tystr(a.getType())));
        json::Array an; for (auto& a : F.args()) an.push_back(a.getName().str());
        json::Object r{{"name", F.getName().str()}, {"dem", dem(F)}, {"args", std::move(at)}, {"argnames", std::move(an)}, {"ret", strs.get(tystr(F.getReturnType()))}, {"blocks", std::move(blocks)}};
        if (auto* sp = F.getSubprogram()) { r["file"] = strs.get(file_of(sp)); r["line"] = (int64_t)sp->getLine(); }
        r["repo"] = in_repo(F);
        return r;
    }
};

int main(int argc, char** argv) {
    std::string in = argv[1], out = argv[2];
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--prefix") prefix_dir = nx();
        else if (a == "--drv") drv_dir = nx();
        else if (a == "--keep") keep_re.emplace_back(nx());
        else if (a == "--also") also_re.emplace_back(nx());
        else if (a == "--root") root_re.emplace_back(nx());
        else if (a == "--all") dump_all = true;
    }
    LLVMContext C; SMDiagnostic E;
    auto M = parseIRFile(in, E, C);
    if (!M) { E.print(argv[0], errs()); return 3; }

    // original census of repository functions (before inlining)
    json::Array census;
    std::set<std::string> root_names;
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        bool repo = in_repo(F), root = matches(root_re, F.getName().str());
        std::string d = dem(F);
        if (repo) census.push_back(json::Object{{"name", F.getName().str()}, {"dem", d}, {"file", strs.get(file_of(F.getSubprogram()))}, {"line", (int64_t)F.getSubprogram()->getLine()},
            {"linkage", F.hasLocalLinkage() ? "internal" : (F.hasLinkOnceLinkage() || F.hasWeakLinkage() ? "odr" : "external")}});
        if (root) { root_names.insert(F.getName().str()); }
        bool inl = !root && ((repo && !matches(keep_re, d)) || (!repo && (matches(also_re, d) || synthetic(F))) || (in_drv(F) && !matches(keep_re, d)));
        F.removeFnAttr(Attribute::OptimizeNone);
        if (inl) { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline); }
        else { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    }
    // functions of interest: roots, address-taken repo functions, optionally all repo functions
    std::set<std::string> want = root_names;
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        if (dump_all && in_repo(F)) want.insert(F.getName().str());
        if (in_repo(F)) {
            for (auto* u : F.users()) {
                auto* cb = dyn_cast<CallBase>(u);
                if (!cb || cb->getCalledOperand() != &F) { want.insert(F.getName().str()); break; }
            }
        }
        if (matches(keep_re, dem(F)) && in_repo(F)) want.insert(F.getName().str());
    }
    // keep wanted functions alive through the inliner (which deletes dead local ones)
    for (auto& n : want) if (auto* F = M->getFunction(n)) { if (F->hasLocalLinkage() || F->hasLinkOnceLinkage()) F->setLinkage(GlobalValue::WeakODRLinkage); F->setComdat(nullptr); }

    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    const char* pipe = getenv("IRDUMP_PIPE");
    if (auto e = PB.parsePassPipeline(MPM, pipe ? pipe : "always-inline,function(sroa,simplifycfg<no-sink-common-insts;no-hoist-common-insts;bonus-inst-threshold=1>,early-cse<memssa>,instsimplify,adce,simplifycfg<no-sink-common-insts;no-hoist-common-insts>)")) { errs() << toString(std::move(e)) << "\n"; return 3; }
    MPM.run(*M, MAM);

    Dumper D(*M);
    json::Array fns;
    for (auto& n : want) if (auto* F = M->getFunction(n)) if (!F->isDeclaration()) fns.push_back(D.fn(*F));
    json::Object gl;
    // transitively dump globals reachable from dumped code (strings, tables, vtables)
    std::set<const GlobalVariable*> done;
    while (true) {
        std::vector<const GlobalVariable*> todo;
        for (auto* g : D.globals) if (!done.count(g)) todo.push_back(g);
        if (todo.empty()) break;
        for (auto* g : todo) {
            done.insert(g);
            json::Object o{{"dem", demangle(g->getName())}, {"const", g->isConstant()}, {"ty", strs.get(tystr(g->getValueType()))}};
            if (g->hasInitializer()) o["init"] = D.cst(g->getInitializer());
            if (g->hasInitializer() && g->isConstant() && !g->getName().starts_with("_ZT") && isa<StructType, ArrayType>(g->getValueType()) && M->getDataLayout().getTypeAllocSize(g->getValueType()) <= 65536) {
                json::Array c; D.flat(g->getInitializer(), 0, c); if (c.size() <= 4096) o["cells"] = std::move(c);
            }
            gl[g->getName().str()] = std::move(o);
        }
    }
    json::Object decl;
    for (auto& F : *M) { json::Object o{{"dem", dem(F)}, {"decl", F.isDeclaration()}, {"repo", in_repo(F)}, {"ret", strs.get(tystr(F.getReturnType()))}};
        if (F.doesNotThrow()) o["nothrow"] = 1; if (F.doesNotReturn()) o["noret"] = 1; decl[F.getName().str()] = std::move(o); }
    // record layouts from debug info
    json::Object types; DebugInfoFinder Fi; Fi.processModule(*M);
    for (auto* t : Fi.types()) if (auto* ct = dyn_cast<DICompositeType>(t)) {
        if (ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type) continue;
        if (file_of(ct).rfind(prefix_dir, 0) != 0) continue;
        std::string nm; for (auto* s = ct->getScope(); s; s = s->getScope()) { if (auto* ns = dyn_cast<DINamespace>(s)) nm = ns->getName().str() + "::" + nm; else if (auto* c2 = dyn_cast<DICompositeType>(s)) nm = c2->getName().str() + "::" + nm; else break; }
        nm += ct->getName().str();
        json::Array mem;
        for (auto* e : ct->getElements()) if (auto* dt = dyn_cast_or_null<DIDerivedType>(e)) {
            if (dt->isStaticMember()) continue;
            std::string tn; if (auto* bt = dt->getBaseType()) tn = bt->getName().str();
            const char* k = dt->getTag() == dwarf::DW_TAG_inheritance ? "base" : dt->getTag() == dwarf::DW_TAG_member ? "member" : nullptr;
            if (k) mem.push_back(json::Array{k, dt->getName().str(), (int64_t)dt->getOffsetInBits() / 8, (int64_t)dt->getSizeInBits() / 8, tn});
        }
        types[nm] = json::Object{{"size", (int64_t)ct->getSizeInBits() / 8}, {"members", std::move(mem)}};
    }
    json::Array sv; for (auto& s : strs.v) sv.push_back(json::fixUTF8(s));
    json::Array lv; for (auto& l : locs.v) lv.push_back(json::Array{l[0], l[1], l[2], l[3]});
    std::error_code ec; raw_fd_ostream os(out, ec);
    os << json::Value(json::Object{{"functions", std::move(fns)}, {"globals", std::move(gl)}, {"decls", std::move(decl)}, {"types", std::move(types)}, {"census", std::move(census)}, {"strs", std::move(sv)}, {"locs", std::move(lv)}});
    return 0;
}
