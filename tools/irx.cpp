// irx: exports LLVM IR (after mem2reg) of one or more translation units as JSON.
//
// This is the front end of the static analyser: it links nothing of the code
// under analysis and runs none of it.  It only walks the compiler's
// intermediate representation and prints it in a form Python can load.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>

using namespace llvm;
typedef json::OStream J;

static const DataLayout* DL;

static void typ(J& j, Type* t)
{
    if (t->isIntegerTy()) { j.value("i" + std::to_string(t->getIntegerBitWidth())); return; }
    if (t->isPointerTy()) { j.value("ptr"); return; }
    if (t->isFloatTy()) { j.value("f32"); return; }
    if (t->isDoubleTy()) { j.value("f64"); return; }
    if (t->isX86_FP80Ty()) { j.value("f80"); return; }
    if (t->isVoidTy()) { j.value("void"); return; }
    if (auto st = dyn_cast<StructType>(t)) {
        auto sl = DL->getStructLayout(st);
        j.array([&] {
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                j.array([&] {
                    j.value((int64_t) sl->getElementOffset(i));
                    typ(j, st->getElementType(i));
                });
        });
        return;
    }
    if (auto at = dyn_cast<ArrayType>(t)) {
        uint64_t n = std::min<uint64_t>(at->getNumElements(), 64);
        uint64_t sz = DL->getTypeAllocSize(at->getElementType());
        j.array([&] {
            for (uint64_t i = 0; i < n; ++i)
                j.array([&] { j.value((int64_t)(i * sz)); typ(j, at->getElementType()); });
        });
        return;
    }
    j.value("?");
}

struct FnCtx { std::map<const Value*, int> ids; std::map<const BasicBlock*, int> bbs; };

static void flat(J& j, Constant* c, uint64_t off);

static void operand(J& j, const Value* v, FnCtx* f)
{
    if (f) {
        auto it = f->ids.find(v);
        if (it != f->ids.end()) { j.value(it->second); return; }
    }
    if (auto ci = dyn_cast<ConstantInt>(v)) {
        j.array([&] {
            j.value("i"); j.value((int64_t) ci->getBitWidth());
            if (ci->getBitWidth() <= 64) j.value((int64_t) ci->getZExtValue());
            else j.value(0);
        });
        return;
    }
    if (isa<ConstantPointerNull>(v)) { j.array([&] { j.value("i"); j.value(64); j.value(0); }); return; }
    if (auto cf = dyn_cast<ConstantFP>(v)) {
        double d = 0;
        APFloat a = cf->getValueAPF(); bool li;
        a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        d = a.convertToDouble();
        std::string s; raw_string_ostream(s) << d;
        j.array([&] { j.value("f"); j.value(s); });
        return;
    }
    if (isa<UndefValue>(v)) { j.array([&] { j.value("u"); typ(j, v->getType()); }); return; }
    if (auto g = dyn_cast<GlobalValue>(v)) { j.array([&] { j.value("g"); j.value(g->getName()); j.value(0); }); return; }
    if (auto ce = dyn_cast<ConstantExpr>(v)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
                const Value* base = ce->getOperand(0);
                if (auto g = dyn_cast<GlobalValue>(base)) {
                    j.array([&] { j.value("g"); j.value(g->getName()); j.value(off.getSExtValue()); });
                    return;
                }
            }
        }
        if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::BitCast
                || ce->getOpcode() == Instruction::IntToPtr) {
            operand(j, ce->getOperand(0), f); return;
        }
        j.array([&] { j.value("x"); j.value(ce->getOpcodeName()); });
        return;
    }
    if (auto c = dyn_cast<Constant>(v)) {
        if (isa<ConstantAggregate>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantDataSequential>(c)) {
            j.array([&] { j.value("c"); j.array([&] { flat(j, const_cast<Constant*>(c), 0); }); });
            return;
        }
    }
    j.array([&] { j.value("x"); j.value("other"); });
}

static void flat(J& j, Constant* c, uint64_t off)
{
    if (isa<ConstantAggregateZero>(c)) {
        j.array([&] { j.value((int64_t) off); j.value((int64_t) DL->getTypeAllocSize(c->getType())); j.value("zero"); });
        return;
    }
    if (auto cs = dyn_cast<ConstantStruct>(c)) {
        auto sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i)
            flat(j, cs->getOperand(i), off + sl->getElementOffset(i));
        return;
    }
    if (auto ca = dyn_cast<ConstantArray>(c)) {
        uint64_t sz = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) flat(j, ca->getOperand(i), off + i * sz);
        return;
    }
    if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
        if (cd->getElementType()->isIntegerTy(8)) {
            std::string hex;
            StringRef raw = cd->getRawDataValues();
            static const char* H = "0123456789abcdef";
            for (unsigned char ch : raw) { hex += H[ch >> 4]; hex += H[ch & 15]; }
            j.array([&] { j.value((int64_t) off); j.value((int64_t) raw.size()); j.value("bytes"); j.value(hex); });
            return;
        }
        uint64_t sz = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); ++i)
            flat(j, cd->getElementAsConstant(i), off + i * sz);
        return;
    }
    j.array([&] {
        j.value((int64_t) off); j.value((int64_t) DL->getTypeStoreSize(c->getType()));
        j.value("val"); operand(j, c, nullptr); typ(j, c->getType());
    });
}

static std::string fileOf(const DIFile* f)
{
    if (!f) return "";
    std::string s = f->getFilename().str();
    if (s.empty() || s[0] != '/') s = f->getDirectory().str() + "/" + s;
    return s;
}

static void loc(J& j, const Instruction& i, std::map<std::string,int>& files)
{
    if (const DebugLoc& d = i.getDebugLoc()) {
        std::string f = fileOf(d->getFile());
        auto it = files.emplace(f, (int) files.size()).first;
        j.array([&] { j.value(it->second); j.value((int64_t) d.getLine()); });
    } else j.value(nullptr);
}

static void instr(J& j, const Instruction& I, FnCtx& f, std::map<std::string,int>& files)
{
    auto id = [&] (const Value* v) { auto it = f.ids.find(v); j.value(it == f.ids.end() ? -1 : it->second); };
    auto op = [&] (const Value* v) { operand(j, v, &f); };
    auto bb = [&] (const BasicBlock* b) { j.value(f.bbs[b]); };
    j.array([&] {
        if (auto r = dyn_cast<ReturnInst>(&I)) {
            j.value("ret"); loc(j, I, files);
            if (r->getReturnValue()) op(r->getReturnValue()); else j.value(nullptr);
        } else if (auto b = dyn_cast<BranchInst>(&I)) {
            if (b->isConditional()) { j.value("cbr"); loc(j, I, files); op(b->getCondition()); bb(b->getSuccessor(0)); bb(b->getSuccessor(1)); }
            else { j.value("br"); loc(j, I, files); bb(b->getSuccessor(0)); }
        } else if (auto s = dyn_cast<SwitchInst>(&I)) {
            j.value("switch"); loc(j, I, files); op(s->getCondition()); bb(s->getDefaultDest());
            j.array([&] { for (auto c : s->cases()) j.array([&] {
                j.value((int64_t) c.getCaseValue()->getZExtValue()); bb(c.getCaseSuccessor()); }); });
        } else if (auto c = dyn_cast<CallBase>(&I)) {
            j.value("call"); loc(j, I, files); id(&I); op(c->getCalledOperand());
            j.array([&] { for (auto& a : c->args()) op(a.get()); });
            typ(j, c->getType());
            if (auto iv = dyn_cast<InvokeInst>(&I)) { bb(iv->getNormalDest()); bb(iv->getUnwindDest()); }
            else { j.value(nullptr); j.value(nullptr); }
            j.array([&] { for (unsigned k = 0; k < c->arg_size(); ++k)
                j.value(c->paramHasAttr(k, Attribute::StructRet) ? "sret" :
                        c->paramHasAttr(k, Attribute::ByVal) ? "byval" : ""); });
        } else if (auto l = dyn_cast<LoadInst>(&I)) {
            j.value("load"); loc(j, I, files); id(&I); op(l->getPointerOperand()); typ(j, l->getType());
            j.value(l->isAtomic());
        } else if (auto s2 = dyn_cast<StoreInst>(&I)) {
            j.value("store"); loc(j, I, files); op(s2->getValueOperand()); op(s2->getPointerOperand());
            typ(j, s2->getValueOperand()->getType()); j.value(s2->isAtomic());
        } else if (auto g = dyn_cast<GetElementPtrInst>(&I)) {
            j.value("gep"); loc(j, I, files); id(&I); op(g->getPointerOperand());
            MapVector<Value*, APInt> var; APInt c0(64, 0);
            cast<GEPOperator>(g)->collectOffset(*DL, 64, var, c0);
            j.value(c0.getSExtValue());
            j.array([&] { for (auto& kv : var) j.array([&] { op(kv.first); j.value(kv.second.getSExtValue()); }); });
        } else if (auto a = dyn_cast<AllocaInst>(&I)) {
            j.value("alloca"); loc(j, I, files); id(&I);
            auto n = dyn_cast<ConstantInt>(a->getArraySize());
            if (n) j.value((int64_t) (DL->getTypeAllocSize(a->getAllocatedType()) * n->getZExtValue()));
            else j.value(nullptr);
        } else if (auto ic = dyn_cast<ICmpInst>(&I)) {
            j.value("icmp"); loc(j, I, files); id(&I); j.value(CmpInst::getPredicateName(ic->getPredicate()));
            op(ic->getOperand(0)); op(ic->getOperand(1));
            j.value((int64_t) DL->getTypeSizeInBits(ic->getOperand(0)->getType()));
        } else if (auto bo = dyn_cast<BinaryOperator>(&I)) {
            j.value("bin"); loc(j, I, files); id(&I); j.value(bo->getOpcodeName()); typ(j, bo->getType());
            op(bo->getOperand(0)); op(bo->getOperand(1));
        } else if (auto ca = dyn_cast<CastInst>(&I)) {
            j.value("cast"); loc(j, I, files); id(&I); j.value(ca->getOpcodeName());
            typ(j, ca->getSrcTy()); typ(j, ca->getDestTy()); op(ca->getOperand(0));
        } else if (auto p = dyn_cast<PHINode>(&I)) {
            j.value("phi"); loc(j, I, files); id(&I);
            j.array([&] { for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) j.array([&] {
                bb(p->getIncomingBlock(k)); op(p->getIncomingValue(k)); }); });
            typ(j, p->getType());
        } else if (auto se = dyn_cast<SelectInst>(&I)) {
            j.value("select"); loc(j, I, files); id(&I); op(se->getCondition()); op(se->getTrueValue()); op(se->getFalseValue());
        } else if (auto ev = dyn_cast<ExtractValueInst>(&I)) {
            j.value("extract"); loc(j, I, files); id(&I); op(ev->getAggregateOperand());
            j.array([&] { for (auto x : ev->indices()) j.value((int64_t) x); });
        } else if (auto iv = dyn_cast<InsertValueInst>(&I)) {
            j.value("insert"); loc(j, I, files); id(&I); op(iv->getAggregateOperand()); op(iv->getInsertedValueOperand());
            j.array([&] { for (auto x : iv->indices()) j.value((int64_t) x); });
            typ(j, iv->getType());
        } else if (auto lp = dyn_cast<LandingPadInst>(&I)) {
            j.value("landingpad"); loc(j, I, files); id(&I);
            j.value(lp->isCleanup());
            j.array([&] { for (unsigned k = 0; k < lp->getNumClauses(); ++k)
                if (lp->isCatch(k)) op(lp->getClause(k)); });
        } else if (isa<ResumeInst>(&I)) { j.value("resume"); loc(j, I, files);
        } else if (isa<UnreachableInst>(&I)) { j.value("unreachable"); loc(j, I, files);
        } else {
            j.value("other"); loc(j, I, files); id(&I); j.value(I.getOpcodeName()); typ(j, I.getType());
            j.array([&] { for (auto& o : I.operands()) if (!isa<BasicBlock>(o.get())) op(o.get()); });
            if (auto rmw = dyn_cast<AtomicRMWInst>(&I)) { j.value(AtomicRMWInst::getOperationName(rmw->getOperation())); typ(j, rmw->getValOperand()->getType()); }
            else if (auto fc = dyn_cast<FCmpInst>(&I)) j.value(CmpInst::getPredicateName(fc->getPredicate()));
            else if (auto cx = dyn_cast<AtomicCmpXchgInst>(&I)) { j.value("cmpxchg"); typ(j, cx->getCompareOperand()->getType()); }
        }
    });
}

static std::string scopeName(const DIScope* s)
{
    std::string r;
    while (s) {
        std::string n;
        if (auto ns = dyn_cast<DINamespace>(s)) n = ns->getName().empty() ? "(anonymous namespace)" : ns->getName().str();
        else if (auto t = dyn_cast<DICompositeType>(s)) n = t->getName().str();
        else if (auto sp = dyn_cast<DISubprogram>(s)) n = sp->getName().str();
        else break;
        r = r.empty() ? n : n + "::" + r;
        s = s->getScope();
    }
    return r;
}

static std::string diTypeName(const DIType* t)
{
    if (!t) return "void";
    if (auto d = dyn_cast<DIDerivedType>(t)) {
        std::string b = diTypeName(d->getBaseType());
        switch (d->getTag()) {
        case dwarf::DW_TAG_pointer_type: return b + "*";
        case dwarf::DW_TAG_reference_type: return b + "&";
        case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
        case dwarf::DW_TAG_const_type: return "const " + b;
        case dwarf::DW_TAG_typedef: return b;
        case dwarf::DW_TAG_volatile_type: return b;
        default: return b;
        }
    }
    if (auto c = dyn_cast<DICompositeType>(t)) {
        std::string s = scopeName(c->getScope());
        return s.empty() ? c->getName().str() : s + "::" + c->getName().str();
    }
    return t->getName().str();
}

static std::string diKind(const DIType* t)
{
    while (t) {
        if (auto d = dyn_cast<DIDerivedType>(t)) {
            switch (d->getTag()) {
            case dwarf::DW_TAG_pointer_type: return "pointer";
            case dwarf::DW_TAG_reference_type:
            case dwarf::DW_TAG_rvalue_reference_type: return "reference";
            case dwarf::DW_TAG_ptr_to_member_type: return "pointer";
            default: t = d->getBaseType(); continue;
            }
        }
        if (auto c = dyn_cast<DICompositeType>(t)) {
            switch (c->getTag()) {
            case dwarf::DW_TAG_enumeration_type: return "enum";
            case dwarf::DW_TAG_array_type: return "array";
            case dwarf::DW_TAG_union_type: return "union";
            default: return "record";
            }
        }
        if (isa<DIBasicType>(t)) return "basic";
        return "other";
    }
    return "void";
}

int main(int argc, char** argv)
{
    LLVMContext ctx;
    std::error_code ec;
    if (argc < 3) { errs() << "usage: irx OUT.json IN.bc...\n"; return 2; }
    raw_fd_ostream os(argv[1], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    J j(os);
    std::map<std::string,int> files;
    std::set<std::string> seenFn, seenG, seenTy;

    std::vector<std::unique_ptr<Module>> mods;
    for (int k = 2; k < argc; ++k) {
        SMDiagnostic err;
        auto m = parseIRFile(argv[k], err, ctx);
        if (!m) { err.print("irx", errs()); return 2; }
        PassBuilder pb; LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
        pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cam, mam);
        FunctionPassManager fpm; fpm.addPass(PromotePass());
        ModulePassManager mpm; mpm.addPass(createModuleToFunctionPassAdaptor(std::move(fpm)));
        mpm.run(*m, mam);
        // internal symbols of different units must not collide
        std::string tag = ".u" + std::to_string(k - 2);
        for (auto& f : *m) if (f.hasLocalLinkage()) f.setName(f.getName() + tag);
        for (auto& g : m->globals()) if (g.hasLocalLinkage()) g.setName(g.getName() + tag);
        mods.push_back(std::move(m));
    }

    j.objectBegin();
    j.attributeBegin("functions"); j.objectBegin();
    for (auto& m : mods) {
        DL = &m->getDataLayout();
        for (auto& F : *m) {
            if (F.isDeclaration()) continue;
            if (!seenFn.insert(F.getName().str()).second) continue;
            FnCtx f; int n = 0;
            for (auto& a : F.args()) f.ids[&a] = n++;
            int b = 0;
            for (auto& B : F) { f.bbs[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) f.ids[&I] = n++; }
            j.attributeBegin(F.getName()); j.objectBegin();
            std::string base = F.getName().str();
            auto pos = base.rfind(".u");
            if (F.hasLocalLinkage() && pos != std::string::npos) base = base.substr(0, pos);
            j.attribute("dem", demangle(base));
            j.attribute("link", F.hasLocalLinkage() ? "internal" : F.hasLinkOnceLinkage() ? "linkonce" : "external");
            auto sp = F.getSubprogram();
            if (sp) {
                j.attribute("file", fileOf(sp->getFile())); j.attribute("line", (int64_t) sp->getLine());
                j.attribute("artificial", sp->isArtificial());
                auto decl = sp->getDeclaration();
                if ((decl && decl->isPrivate()) || sp->isPrivate()) j.attribute("private", true);
            }
            j.attributeBegin("args"); j.array([&] { for (auto& a : F.args()) j.array([&] {
                typ(j, a.getType());
                j.value(a.hasStructRetAttr() ? "sret" : a.hasByValAttr() ? "byval" : "");
                j.value((int64_t) (a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()) :
                        a.hasStructRetAttr() ? DL->getTypeAllocSize(a.getParamStructRetType()) : 0)); }); });
            j.attributeEnd();
            j.attributeBegin("ret"); typ(j, F.getReturnType()); j.attributeEnd();
            j.attribute("vararg", F.isVarArg());
            j.attribute("n", n);
            j.attributeBegin("blocks"); j.array([&] {
                for (auto& B : F) j.array([&] {
                    for (auto& I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; instr(j, I, f, files); } });
            }); j.attributeEnd();
            j.objectEnd(); j.attributeEnd();
        }
    }
    j.objectEnd(); j.attributeEnd();

    j.attributeBegin("decls"); j.objectBegin();
    std::set<std::string> seenD;
    for (auto& m : mods) for (auto& F : *m)
        if (F.isDeclaration() && !seenFn.count(F.getName().str()) && seenD.insert(F.getName().str()).second)
            j.attribute(F.getName(), demangle(F.getName().str()));
    j.objectEnd(); j.attributeEnd();

    j.attributeBegin("aliases"); j.objectBegin();
    { std::set<std::string> seenA;
      for (auto& m : mods) for (auto& a : m->aliases())
        if (auto t = dyn_cast<Function>(a.getAliaseeObject()))
            if (seenA.insert(a.getName().str()).second) j.attribute(a.getName(), t->getName());
    }
    j.objectEnd(); j.attributeEnd();

    j.attributeBegin("globals"); j.objectBegin();
    for (auto& m : mods) {
        DL = &m->getDataLayout();
        for (auto& g : m->globals()) {
            if (g.isDeclaration()) continue;
            if (!seenG.insert(g.getName().str()).second) continue;
            j.attributeBegin(g.getName()); j.objectBegin();
            std::string base = g.getName().str();
            auto pos = base.rfind(".u");
            if (g.hasLocalLinkage() && pos != std::string::npos) base = base.substr(0, pos);
            j.attribute("dem", demangle(base));
            j.attribute("size", (int64_t) DL->getTypeAllocSize(g.getValueType()));
            j.attribute("const", g.isConstant());
            j.attribute("tls", g.isThreadLocal());
            SmallVector<DIGlobalVariableExpression*, 1> gv; g.getDebugInfo(gv);
            if (!gv.empty()) { j.attribute("file", fileOf(gv[0]->getVariable()->getFile())); j.attribute("line", (int64_t) gv[0]->getVariable()->getLine());
                j.attribute("type", diTypeName(gv[0]->getVariable()->getType())); }
            j.attributeBegin("init"); j.array([&] { if (g.hasInitializer()) flat(j, g.getInitializer(), 0); }); j.attributeEnd();
            j.objectEnd(); j.attributeEnd();
        }
    }
    j.objectEnd(); j.attributeEnd();

    j.attributeBegin("records"); j.objectBegin();
    for (auto& m : mods) {
        DebugInfoFinder fi; fi.processModule(*m);
        for (auto t : fi.types()) {
            auto c = dyn_cast<DICompositeType>(t);
            if (!c || c->isForwardDecl() || c->getName().empty()) continue;
            if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type
                && c->getTag() != dwarf::DW_TAG_enumeration_type) continue;
            std::string n = diTypeName(c);
            if (!seenTy.insert(n).second) continue;
            j.attributeBegin(json::isUTF8(n) ? n : json::fixUTF8(n)); j.objectBegin();
            j.attribute("file", fileOf(c->getFile())); j.attribute("line", (int64_t) c->getLine());
            j.attribute("size", (int64_t) c->getSizeInBits() / 8);
            j.attribute("tag", c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : "record");
            j.attributeBegin("members"); j.array([&] {
                for (auto e : c->getElements()) {
                    if (auto en = dyn_cast<DIEnumerator>(e)) {
                        j.array([&] { j.value(en->getName()); j.value(en->getValue().getSExtValue()); });
                        continue;
                    }
                    auto d = dyn_cast<DIDerivedType>(e);
                    if (!d) continue;
                    if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
                        j.array([&] { j.value("member"); j.value(d->getName()); j.value((int64_t) d->getOffsetInBits() / 8);
                            uint64_t sz = d->getSizeInBits();
                            j.value((int64_t) sz / 8); j.value(diKind(d->getBaseType()));
                            std::string tn = diTypeName(d->getBaseType()); j.value(json::isUTF8(tn) ? tn : json::fixUTF8(tn)); });
                    else if (d->getTag() == dwarf::DW_TAG_inheritance)
                        j.array([&] { j.value("base"); j.value(diTypeName(d->getBaseType())); j.value((int64_t) d->getOffsetInBits() / 8); });
                }
            }); j.attributeEnd();
            j.objectEnd(); j.attributeEnd();
        }
    }
    j.objectEnd(); j.attributeEnd();

    std::vector<std::string> fl(files.size());
    for (auto& kv : files) fl[kv.second] = kv.first;
    j.attributeBegin("files"); j.array([&] { for (auto& s : fl) j.value(s); }); j.attributeEnd();
    j.objectEnd();
    os << "\n";
    return 0;
}
