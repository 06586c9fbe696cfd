// irdump: dumps the resolved program (LLVM IR of the library and the drivers, made from /repo's current source by clang)
// as JSON: functions, blocks, instructions with resolved callees, byte offsets and source positions, natural loops,
// global initialisers (vtables, typeinfo) and record layouts from the debug information.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <map>
using namespace llvm;
static const DataLayout *DL;
static std::string hex(const APInt &v) { SmallString<40> s; v.toStringUnsigned(s); return std::string(s); }
static int64_t tyw(Type *t) {  // width in bits of a scalar, -1 for an aggregate, -2 for a float/vector, 0 for void
    if (t->isVoidTy()) return 0;
    if (auto *i = dyn_cast<IntegerType>(t)) return i->getBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isStructTy() || t->isArrayTy()) return -1;
    return -2;
}
static json::Value tydesc(Type *t) {  // scalar: width; aggregate: {"agg":[[off,desc],...],"size":n}; float: {"f":bits}
    int64_t w = tyw(t);
    if (t->isPointerTy()) return "p";
    if (!t->isVoidTy() && !t->isSized()) return "md";
    if (w >= 0) return w;
    if (w == -1) {
        json::Array a;
        if (auto *s = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); ++i)
                a.push_back(json::Array{(int64_t)sl->getElementOffset(i).getFixedValue(), tydesc(s->getElementType(i))});
        } else {
            auto *ar = cast<ArrayType>(t);
            uint64_t es = DL->getTypeAllocSize(ar->getElementType());
            uint64_t n = ar->getNumElements();
            if (n <= 64) for (uint64_t i = 0; i < n; ++i) a.push_back(json::Array{(int64_t)(i * es), tydesc(ar->getElementType())});
        }
        return json::Object{{"agg", std::move(a)}, {"size", (int64_t)DL->getTypeAllocSize(t).getFixedValue()}};
    }
    return json::Object{{"f", (int64_t)DL->getTypeSizeInBits(t).getFixedValue()}};
}
struct FnCtx { std::map<const Value *, int> ids; std::map<const BasicBlock *, int> bbs; };
static json::Value cst(Constant *c);
static json::Value val(Value *v, FnCtx &f) {
    auto it = f.ids.find(v);
    if (it != f.ids.end()) return (int64_t)it->second;
    if (auto *c = dyn_cast<Constant>(v)) return cst(c);
    if (isa<MetadataAsValue>(v)) return json::Object{{"k", "md"}};
    if (isa<InlineAsm>(v)) return json::Object{{"k", "asm"}};
    return json::Object{{"k", "?"}};
}
static json::Value cst(Constant *c) {
    if (auto *i = dyn_cast<ConstantInt>(c)) return json::Object{{"k", "i"}, {"v", hex(i->getValue())}, {"w", (int64_t)i->getBitWidth()}};
    if (isa<ConstantPointerNull>(c)) return json::Object{{"k", "i"}, {"v", "0"}, {"w", 64}};
    if (auto *g = dyn_cast<GlobalAlias>(c)) return cst(g->getAliasee());
    if (auto *g = dyn_cast<GlobalValue>(c)) return json::Object{{"k", "g"}, {"n", g->getName().str()}, {"o", 0}};
    if (isa<UndefValue>(c)) return json::Object{{"k", "u"}, {"t", tydesc(c->getType())}};
    if (isa<ConstantAggregateZero>(c)) return json::Object{{"k", "z"}, {"t", tydesc(c->getType())}};
    if (auto *f = dyn_cast<ConstantFP>(c)) return json::Object{{"k", "fp"}, {"v", hex(f->getValueAPF().bitcastToAPInt())}, {"w", (int64_t)f->getValueAPF().bitcastToAPInt().getBitWidth()}};
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        if (e->isCast()) return cst(e->getOperand(0));
        if (auto *gep = dyn_cast<GEPOperator>(e)) {
            APInt off(64, 0);
            if (gep->accumulateConstantOffset(*DL, off)) {
                Constant *b = cast<Constant>(gep->getPointerOperand());
                json::Value bv = cst(b);
                if (auto *o = bv.getAsObject()) if (o->getString("k") && *o->getString("k") == "g") {
                    int64_t oo = *o->getInteger("o");
                    (*o)["o"] = oo + off.getSExtValue();
                }
                return bv;
            }
        }
        return json::Object{{"k", "ce"}};
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c)) {
        json::Array a; Type *t = c->getType();
        if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
            if (ds->isString(8) || ds->getNumElements() > 512) return json::Object{{"k", "str"}, {"v", ds->isString(8) ? json::fixUTF8(ds->getAsString()) : ""}};
            uint64_t es = ds->getElementByteSize();
            for (unsigned i = 0; i < ds->getNumElements(); ++i) a.push_back(json::Array{(int64_t)(i * es), cst(ds->getElementAsConstant(i))});
        } else if (auto *s = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(s);
            for (unsigned i = 0; i < c->getNumOperands(); ++i)
                a.push_back(json::Array{(int64_t)sl->getElementOffset(i).getFixedValue(), cst(cast<Constant>(c->getOperand(i)))});
        } else {
            uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
            for (unsigned i = 0; i < c->getNumOperands(); ++i) a.push_back(json::Array{(int64_t)(i * es), cst(cast<Constant>(c->getOperand(i)))});
        }
        return json::Object{{"k", "agg"}, {"e", std::move(a)}, {"t", tydesc(t)}};
    }
    return json::Object{{"k", "?"}};
}
static json::Value loc(const DebugLoc &d) {
    if (!d) return nullptr;
    auto *l = d.get();
    return json::Array{l->getFilename().str(), (int64_t)l->getLine()};
}
static json::Object dumpInst(Instruction &I, FnCtx &f) {
    json::Object o;
    o["op"] = I.getOpcodeName();
    if (!I.getType()->isVoidTy()) { o["id"] = f.ids[&I]; o["t"] = tydesc(I.getType()); }
    if (I.getDebugLoc()) o["l"] = loc(I.getDebugLoc());
    auto ops = [&](unsigned from = 0) { json::Array a; for (unsigned i = from; i < I.getNumOperands(); ++i) a.push_back(val(I.getOperand(i), f)); return a; };
    if (auto *a = dyn_cast<AllocaInst>(&I)) {
        o["size"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue();
        o["n"] = val(a->getArraySize(), f);
        return o;
    }
    if (auto *l = dyn_cast<LoadInst>(&I)) { o["p"] = val(l->getPointerOperand(), f); if (l->isAtomic()) o["atomic"] = (int64_t)l->getOrdering(); return o; }
    if (auto *s = dyn_cast<StoreInst>(&I)) {
        o["v"] = val(s->getValueOperand(), f); o["p"] = val(s->getPointerOperand(), f); o["vt"] = tydesc(s->getValueOperand()->getType());
        if (s->isAtomic()) o["atomic"] = (int64_t)s->getOrdering();
        return o;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value *, APInt> vo; APInt co(64, 0);
        o["p"] = val(g->getPointerOperand(), f);
        if (g->collectOffset(*DL, 64, vo, co)) {
            o["c"] = co.getSExtValue();
            json::Array a;
            for (auto &kv : vo) a.push_back(json::Array{val(kv.first, f), kv.second.getSExtValue(), (int64_t)tyw(kv.first->getType())});
            o["vo"] = std::move(a);
        }
        return o;
    }
    if (auto *c = dyn_cast<ICmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["a"] = ops(); o["w"] = tyw(c->getOperand(0)->getType()); return o; }
    if (auto *b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) o["c"] = val(b->getCondition(), f);
        json::Array a; for (unsigned i = 0; i < b->getNumSuccessors(); ++i) a.push_back(f.bbs[b->getSuccessor(i)]);
        o["s"] = std::move(a); return o;
    }
    if (auto *s = dyn_cast<SwitchInst>(&I)) {
        o["c"] = val(s->getCondition(), f); o["d"] = f.bbs[s->getDefaultDest()]; o["w"] = tyw(s->getCondition()->getType());
        json::Array a; for (auto &c : s->cases()) a.push_back(json::Array{hex(c.getCaseValue()->getValue()), f.bbs[c.getCaseSuccessor()]});
        o["s"] = std::move(a); return o;
    }
    if (auto *p = dyn_cast<PHINode>(&I)) {
        json::Array a; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) a.push_back(json::Array{f.bbs[p->getIncomingBlock(i)], val(p->getIncomingValue(i), f)});
        o["in"] = std::move(a); return o;
    }
    if (auto *cb = dyn_cast<CallBase>(&I)) {
        o["f"] = val(cb->getCalledOperand(), f);
        json::Array a; for (auto &u : cb->args()) a.push_back(val(u.get(), f));
        o["a"] = std::move(a);
        json::Array at; for (auto &u : cb->args()) at.push_back(tydesc(u.get()->getType()));
        o["at"] = std::move(at);
        json::Array bv; for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->isByValArgument(i)) bv.push_back(json::Array{(int64_t)i, (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue()});
        if (!bv.empty()) o["bv"] = std::move(bv);
        if (cb->doesNotThrow()) o["nounwind"] = true;
        if (cb->doesNotReturn()) o["noreturn"] = true;
        if (auto *inv = dyn_cast<InvokeInst>(&I)) { o["n"] = f.bbs[inv->getNormalDest()]; o["u"] = f.bbs[inv->getUnwindDest()]; }
        return o;
    }
    if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
        json::Array a;
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) a.push_back(json::Array{lp->isCatch(i) ? "catch" : "filter", cst(lp->getClause(i))});
        o["cl"] = std::move(a); o["cleanup"] = lp->isCleanup(); return o;
    }
    if (auto *e = dyn_cast<ExtractValueInst>(&I)) { o["a"] = ops(); json::Array x; for (auto i : e->indices()) x.push_back((int64_t)i); o["ix"] = std::move(x); return o; }
    if (auto *e = dyn_cast<InsertValueInst>(&I)) { o["a"] = ops(); json::Array x; for (auto i : e->indices()) x.push_back((int64_t)i); o["ix"] = std::move(x); return o; }
    if (auto *c = dyn_cast<AtomicCmpXchgInst>(&I)) { o["a"] = ops(); o["vt"] = tydesc(c->getCompareOperand()->getType()); o["weak"] = c->isWeak(); o["order"] = json::Array{(int64_t)c->getSuccessOrdering(), (int64_t)c->getFailureOrdering()}; return o; }
    if (auto *c = dyn_cast<AtomicRMWInst>(&I)) { o["a"] = ops(); o["rmw"] = AtomicRMWInst::getOperationName(c->getOperation()).str(); o["vt"] = tydesc(c->getValOperand()->getType()); o["order"] = (int64_t)c->getOrdering(); return o; }
    if (auto *c = dyn_cast<FenceInst>(&I)) { o["order"] = (int64_t)c->getOrdering(); return o; }
    if (isa<CastInst>(&I)) { o["a"] = ops(); o["ft"] = tydesc(I.getOperand(0)->getType()); return o; }
    if (isa<ReturnInst>(&I)) { o["a"] = ops(); return o; }
    if (I.getNumOperands()) { o["a"] = ops(); o["ot"] = tydesc(I.getOperand(0)->getType()); }
    return o;
}
static void collectTypes(Module &M, json::OStream &J) {
    DebugInfoFinder F; F.processModule(M);
    J.attributeBegin("types"); J.arrayBegin();
    for (auto *t : F.types()) {
        auto *c = dyn_cast<DICompositeType>(t);
        if (!c || c->isForwardDecl()) continue;
        if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
        std::string full; { const DIScope *s = c->getScope(); full = c->getName().str(); while (s && !isa<DIFile>(s) && !isa<DICompileUnit>(s)) { if (!s->getName().empty()) full = s->getName().str() + "::" + full; s = s->getScope(); } }
        json::Array m;
        for (auto *e : c->getElements()) {
            auto *d = dyn_cast<DIDerivedType>(e);
            if (!d || d->isStaticMember()) continue;
            if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
            std::string tn; bool ptr = false; const DIType *bt = d->getBaseType(); int guard = 0; uint64_t sz = d->getSizeInBits(); bool cons = false;
            std::string tid;
            while (bt && guard++ < 10) {
                if (auto *dd = dyn_cast<DIDerivedType>(bt)) {
                    if (dd->getTag() == dwarf::DW_TAG_pointer_type || dd->getTag() == dwarf::DW_TAG_reference_type) ptr = true;
                    if (dd->getTag() == dwarf::DW_TAG_const_type && !ptr) cons = true;
                    if (!dd->getBaseType()) { tn = dd->getName().str(); break; }
                    bt = dd->getBaseType();
                } else { tn = bt->getName().str(); if (auto *cc = dyn_cast<DICompositeType>(bt)) { tid = cc->getIdentifier().str(); } break; }
            }
            m.push_back(json::Object{{"n", d->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : d->getName().str()}, {"o", (int64_t)(d->getOffsetInBits() / 8)}, {"s", (int64_t)(sz / 8)}, {"t", tn}, {"tid", tid}, {"ptr", ptr}, {"const", cons}});
        }
        J.value(json::Object{{"name", full}, {"id", c->getIdentifier().str()}, {"size", (int64_t)(c->getSizeInBits() / 8)}, {"m", std::move(m)}, {"line", (int64_t)c->getLine()}, {"file", c->getFilename().str()}});
    }
    J.arrayEnd(); J.attributeEnd();
}
int main(int argc, char **argv) {
    LLVMContext C; SMDiagnostic E;
    auto M = parseIRFile(argv[1], E, C);
    if (!M) { E.print(argv[0], errs()); return 2; }
    DL = &M->getDataLayout();
    json::OStream J(outs());
    J.objectBegin();
    collectTypes(*M, J);
    J.attributeBegin("globals"); J.objectBegin();
    for (auto &g : M->globals()) {
        json::Object o; o["const"] = g.isConstant();
        o["size"] = (int64_t)(g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
        if (g.hasInitializer()) o["init"] = cst(g.getInitializer());
        J.attribute(g.getName(), std::move(o));
    }
    J.objectEnd(); J.attributeEnd();
    J.attributeBegin("funcs"); J.objectBegin();
    for (auto &F : *M) {
        J.attributeBegin(F.getName()); J.objectBegin();
        J.attribute("dem", demangle(F.getName().str()));
        J.attribute("decl", F.isDeclaration());
        J.attribute("nounwind", F.doesNotThrow());
        J.attribute("noreturn", F.doesNotReturn());
        J.attribute("ret", tydesc(F.getReturnType()));
        J.attribute("external", F.hasExternalLinkage() || F.hasWeakLinkage() || F.hasLinkOnceLinkage());
        if (auto *sp = F.getSubprogram()) { J.attribute("file", sp->getFilename()); J.attribute("line", (int64_t)sp->getLine()); }
        FnCtx f; int n = 0;
        J.attributeBegin("args"); J.arrayBegin();
        for (auto &a : F.args()) { f.ids[&a] = n; J.value(json::Object{{"id", n}, {"t", tydesc(a.getType())}, {"sret", a.hasStructRetAttr()}}); ++n; }
        J.arrayEnd(); J.attributeEnd();
        if (!F.isDeclaration()) {
            int b = 0;
            for (auto &BB : F) { f.bbs[&BB] = b++; for (auto &I : BB) if (!I.getType()->isVoidTy()) f.ids[&I] = n++; }
            J.attributeBegin("blocks"); J.arrayBegin();
            for (auto &BB : F) {
                J.arrayBegin();
                for (auto &I : BB) {
                    if (isa<DbgInfoIntrinsic>(&I)) continue;
                    J.value(dumpInst(I, f));
                }
                J.arrayEnd();
            }
            J.arrayEnd(); J.attributeEnd();
            DominatorTree DT(F); LoopInfo LI(DT);
            J.attributeBegin("loops"); J.arrayBegin();
            for (auto *L : LI.getLoopsInPreorder()) {
                json::Array bl; for (auto *BB : L->blocks()) bl.push_back(f.bbs[BB]);
                J.value(json::Object{{"h", f.bbs[L->getHeader()]}, {"b", std::move(bl)}});
            }
            J.arrayEnd(); J.attributeEnd();
        }
        J.objectEnd(); J.attributeEnd();
    }
    J.objectEnd(); J.attributeEnd();
    J.objectEnd();
    return 0;
}
