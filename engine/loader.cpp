#include <fstream>
// LLVM IR -> analyser bytecode. The only translation unit that uses LLVM.
#include "bc.hpp"
#include <set>
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"

using namespace llvm;

namespace {
struct Ld {
    ::Module &M; llvm::Module &L; const DataLayout &DL;
    std::map<std::string, u32> strMap; std::map<std::tuple<u32, u32, u32>, u32> locMap;
    std::map<const GlobalVariable *, int> gidx; std::map<const Function *, int> fidx;
    std::map<const Constant *, int> cpool;
    std::string err;
    Ld(::Module &m, llvm::Module &l) : M(m), L(l), DL(l.getDataLayout()) {}
    u32 str(StringRef s0) { std::string s = s0.str(); auto it = strMap.find(s); if (it != strMap.end()) return it->second; M.strs.push_back(s); return strMap[s] = (u32)M.strs.size() - 1; }
    u32 locOf(u32 file, u32 line, u32 fn) { auto k = std::make_tuple(file, line, fn); auto it = locMap.find(k); if (it != locMap.end()) return it->second; M.locs.push_back({file, line, fn}); return locMap[k] = (u32)M.locs.size() - 1; }
    void flat(Type *t, std::vector<u16> &o) {
        if (auto *v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), o); return; }
        if (auto *s = dyn_cast<StructType>(t)) { for (auto *e : s->elements()) flat(e, o); return; }
        if (auto *a = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), o); return; }
        if (t->isIntegerTy()) { o.push_back((u16)t->getIntegerBitWidth()); return; }
        if (t->isPointerTy()) { o.push_back(64); return; }
        if (t->isVoidTy()) return;
        if (t->isFloatTy()) { o.push_back(32); return; }
        if (t->isDoubleTy()) { o.push_back(64); return; }
        o.push_back(64);
    }
    unsigned nslots(Type *t) { std::vector<u16> o; flat(t, o); return (unsigned)o.size(); }
    unsigned ew(Type *t) { std::vector<u16> o; flat(t, o); return o.empty() ? 0 : o[0]; }
    void constSlots(const Constant *c, std::vector<V> &o, std::vector<std::pair<u32, u8>> &fix) {
        Type *t = c->getType();
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
            unsigned w = ci->getBitWidth();
            if (w <= 64) o.push_back(vconst(w, ci->getZExtValue()));
            else if (ci->getValue().getActiveBits() <= 64) o.push_back(V{K_CONST, 0, (u16)w, 0, ci->getValue().getLoBits(64).getZExtValue()});
            else { std::vector<Bit> b(w); for (unsigned k = 0; k < w; k++) b[k] = bconst(ci->getValue()[k]); o.push_back(mkBits(b.data(), w)); }
            return;
        }
        if (isa<ConstantPointerNull>(c)) { o.push_back(vconst(64, 0)); return; }
        if (isa<UndefValue>(c)) { std::vector<u16> f; flat(t, f); for (u16 w : f) o.push_back(opaque(w, T_UNINIT)); return; }
        if (isa<ConstantAggregateZero>(c)) { std::vector<u16> f; flat(t, f); for (u16 w : f) o.push_back(V{K_CONST, 0, w, 0, 0}); return; }
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constSlots(cd->getElementAsConstant(i), o, fix); return; }
        if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (auto &op : ca->operands()) constSlots(cast<Constant>(op), o, fix); return; }
        if (auto *f = dyn_cast<Function>(c)) { fix.push_back({(u32)o.size(), 2}); o.push_back(vptr((u32)fidx[f], 0)); return; }
        if (t->isPointerTy()) {
            APInt off(64, 0); const Value *b = c->stripAndAccumulateConstantOffsets(DL, off, true);
            if (auto *g = dyn_cast<GlobalVariable>(b)) { fix.push_back({(u32)o.size(), 1}); o.push_back(vptr((u32)gidx[g], off.getSExtValue())); return; }
            if (auto *f = dyn_cast<Function>(b)) { fix.push_back({(u32)o.size(), 2}); o.push_back(vptr((u32)fidx[f], 0)); return; }
            if (isa<ConstantPointerNull>(b)) { o.push_back(vconst(64, (u64)off.getSExtValue())); return; }
        }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) if (ce->getOpcode() == Instruction::PtrToInt) { constSlots(ce->getOperand(0), o, fix); return; }
        std::vector<u16> f; flat(t, f); for (u16 w : f) o.push_back(opaque(w, 0));
    }
    int constant(const Constant *c) {
        auto it = cpool.find(c); if (it != cpool.end()) return it->second;
        std::vector<V> v; std::vector<std::pair<u32, u8>> fix; constSlots(c, v, fix);
        int idx = (int)M.pool.size(); for (auto &x : v) M.pool.push_back(x);
        for (auto &f : fix) M.poolFix.push_back({(u32)idx + f.first, f.second});
        return cpool[c] = ~idx;
    }
    void initBytes(const Constant *c, std::vector<Cell> &o, u64 off, Global &g) {
        Type *t = c->getType(); u64 sz = DL.getTypeStoreSize(t);
        if (auto *ci = dyn_cast<ConstantInt>(c)) { for (u64 i = 0; i < sz; i++) { u64 bitpos = (DL.isBigEndian() ? sz - 1 - i : i) * 8; u32 b = bitpos < ci->getBitWidth() ? (u32)(ci->getValue().lshr((unsigned)bitpos).getLoBits(64).getZExtValue() & 0xff) : 0; o[off + i] = Cell{0, b}; } return; }
        if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) { for (u64 i = 0; i < DL.getTypeAllocSize(t); i++) o[off + i] = Cell{0, 0}; return; }
        if (isa<UndefValue>(c)) { return; }
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL.getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initBytes(cd->getElementAsConstant(i), o, off + i * es, g); return; }
        if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = DL.getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initBytes(s->getOperand(i), o, off + sl->getElementOffset(i), g); return; }
        if (auto *a = dyn_cast<ConstantArray>(c)) { u64 es = DL.getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initBytes(a->getOperand(i), o, off + i * es, g); return; }
        if (auto *a = dyn_cast<ConstantVector>(c)) { u64 es = DL.getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initBytes(a->getOperand(i), o, off + i * es, g); return; }
        if (t->isPointerTy()) {
            APInt of(64, 0); const Value *b = c->stripAndAccumulateConstantOffsets(DL, of, true);
            if (auto *gv = dyn_cast<GlobalVariable>(b)) { g.relocs.push_back({off, gidx[gv], of.getSExtValue(), false}); return; }
            if (auto *f = dyn_cast<Function>(b)) { g.relocs.push_back({off, fidx[f], 0, true}); return; }
        }
        // anything else: unknown bytes
        for (u64 i = 0; i < sz; i++) { V v = opaque(8, 0); o[off + i] = Cell{v.a, 0}; }
    }
    u32 loc(const Instruction &I, u32 dflt) {
        const DILocation *d = I.getDebugLoc().get();
        if (!d) return dflt;
        auto *sp = d->getScope()->getSubprogram();
        return locOf(str(d->getFilename()), d->getLine(), str(sp ? sp->getName() : ""));
    }
    // places of left shifts on signed operands (VERIF_SHIFTS: one file:line:column per line, from the compiler's front end)
    bool signedShift(const Instruction &I) {
        static const std::set<std::string> S = [] { std::set<std::string> s; if (const char *p = getenv("VERIF_SHIFTS")) { std::ifstream f(p); std::string l; while (std::getline(f, l)) s.insert(l); } return s; }();
        const DILocation *d = I.getDebugLoc().get(); if (S.empty() || !d) return false;
        std::string f = d->getFilename().str(); size_t q = f.rfind('/'); if (q != std::string::npos) f = f.substr(q + 1);
        return S.count(f + ":" + std::to_string(d->getLine()) + ":" + std::to_string(d->getColumn())) != 0;
    }
    void func(const Function &F);
    bool run();
};

static u8 binOf(unsigned opc) {
    switch (opc) {
    case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL; case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR;
    case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR; case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM;
    }
    return 255;
}
static u8 predOf(CmpInst::Predicate p) {
    switch (p) {
    case CmpInst::ICMP_EQ: return O_EQ; case CmpInst::ICMP_NE: return O_NE; case CmpInst::ICMP_ULT: return O_ULT; case CmpInst::ICMP_ULE: return O_ULE; case CmpInst::ICMP_UGT: return O_UGT; case CmpInst::ICMP_UGE: return O_UGE;
    case CmpInst::ICMP_SLT: return O_SLT; case CmpInst::ICMP_SLE: return O_SLE; case CmpInst::ICMP_SGT: return O_SGT; case CmpInst::ICMP_SGE: return O_SGE;
    default: return 255;
    }
}

void Ld::func(const Function &F) {
    ::Func &f = M.funcs[fidx[&F]];
    f.retW = (u16)ew(F.getReturnType()); f.retLanes = (u16)nslots(F.getReturnType()); f.retPtr = F.getReturnType()->isPointerTy();
    std::map<const Value *, int> reg; int nr = 0;
    for (auto &A : F.args()) { reg[&A] = nr; f.argSlot.push_back(nr); f.argW.push_back((u16)ew(A.getType())); f.argLanes.push_back((u16)nslots(A.getType())); f.argPtr.push_back(A.getType()->isPointerTy()); nr += (int)nslots(A.getType()); }
    f.nregs = nr;
    if (F.isDeclaration()) return;
    std::map<const BasicBlock *, u32> bidx; u32 nb = 0;
    for (auto &B : F) bidx[&B] = nb++;
    for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) { reg[&I] = nr; nr += (int)nslots(I.getType()); }
    f.nregs = nr;
    f.blocks.resize(nb);
    auto opnd = [&](const Value *v) -> int {
        if (auto *c = dyn_cast<Constant>(v)) return constant(c);
        auto it = reg.find(v); if (it != reg.end()) return it->second;
        return constant(UndefValue::get(v->getType()));       // metadata, asm ...
    };
    auto *sp = F.getSubprogram();
    f.file = str(sp ? sp->getFilename() : StringRef("?")); f.line = sp ? sp->getLine() : 0;
    u32 dflt = locOf(f.file, f.line, f.nameId);
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) -> u32 {
        Edge e;
        for (auto &P : to->phis()) {
            const Value *v = P.getIncomingValueForBlock(from); unsigned n = nslots(P.getType()); int s = opnd(v), d = reg[&P];
            for (unsigned i = 0; i < n; i++) e.copies.push_back({d + (int)i, s >= 0 ? s + (int)i : s - (int)i});
        }
        M.edges.push_back(e); return (u32)M.edges.size() - 1;
    };
    for (auto &B : F) {
        Block &b = f.blocks[bidx[&B]]; b.first = (u32)f.code.size(); b.name = B.getName().str();
        for (auto &I : B) {
            if (isa<PHINode>(I)) continue;
            Ins n; memset(&n, 0, sizeof n); n.dst = -1; n.loc = loc(I, dflt); dflt = n.loc;
            if (!I.getType()->isVoidTy()) { n.dst = reg[&I]; n.w = (u16)ew(I.getType()); n.lanes = (u16)nslots(I.getType()); }
            auto push = [&]() { f.code.push_back(n); };
            if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
                u8 o = binOf(bo->getOpcode()); if (o == 255) { n.op = B_UNSUP; push(); continue; }
                n.op = B_BIN; n.sub = o; n.a = opnd(bo->getOperand(0)); n.b = opnd(bo->getOperand(1));
                if (auto *ob = dyn_cast<OverflowingBinaryOperator>(bo)) n.align = (ob->hasNoSignedWrap() ? 1u : 0u) | (ob->hasNoUnsignedWrap() ? 2u : 0u);
                if (o == O_SHL && n.lanes == 1 && signedShift(I)) n.align |= 4;
                push(); continue;
            }
            if (auto *ic = dyn_cast<ICmpInst>(&I)) {
                n.op = B_ICMP; n.sub = predOf(ic->getPredicate()); n.w2 = (u16)ew(ic->getOperand(0)->getType()); n.a = opnd(ic->getOperand(0)); n.b = opnd(ic->getOperand(1)); push(); continue;
            }
            if (auto *ca = dyn_cast<CastInst>(&I)) {
                n.a = opnd(ca->getOperand(0)); n.w2 = (u16)ew(ca->getSrcTy());
                switch (ca->getOpcode()) {
                case Instruction::Trunc: n.op = B_TRUNC; break; case Instruction::ZExt: n.op = B_ZEXT; break; case Instruction::SExt: n.op = B_SEXT; break;
                case Instruction::PtrToInt: n.op = B_PTRTOINT; break; case Instruction::IntToPtr: n.op = B_INTTOPTR; break;
                case Instruction::BitCast: if (n.w == n.w2) n.op = B_MOVE; else { n.op = B_BITCASTV; n.aux = nslots(ca->getSrcTy()); } break;
                case Instruction::AddrSpaceCast: n.op = B_MOVE; break;
                default: n.op = B_UNSUP;
                }
                push(); continue;
            }
            if (auto *fr = dyn_cast<FreezeInst>(&I)) { n.op = B_MOVE; n.a = opnd(fr->getOperand(0)); push(); continue; }
            if (auto *se = dyn_cast<SelectInst>(&I)) {
                n.op = B_SELECT; n.a = opnd(se->getCondition()); n.b = opnd(se->getTrueValue()); n.c = opnd(se->getFalseValue()); n.sub = se->getCondition()->getType()->isVectorTy(); push(); continue;
            }
            if (auto *ld = dyn_cast<LoadInst>(&I)) {
                n.op = B_LOAD; n.a = opnd(ld->getPointerOperand()); n.align = (u32)ld->getAlign().value(); n.sub = ld->isVolatile();
                if (ld->getType()->isStructTy() || ld->getType()->isArrayTy()) n.op = B_UNSUP;
                push(); continue;
            }
            if (auto *st = dyn_cast<StoreInst>(&I)) {
                n.op = B_STORE; n.a = opnd(st->getPointerOperand()); n.b = opnd(st->getValueOperand()); n.align = (u32)st->getAlign().value(); n.sub = st->isVolatile(); n.w = (u16)ew(st->getValueOperand()->getType()); n.lanes = (u16)nslots(st->getValueOperand()->getType());
                if (st->getValueOperand()->getType()->isStructTy() || st->getValueOperand()->getType()->isArrayTy()) n.op = B_UNSUP;
                push(); continue;
            }
            if (auto *ge = dyn_cast<GetElementPtrInst>(&I)) {
                if (ge->getType()->isVectorTy()) { n.op = B_UNSUP; push(); continue; }
                GepInfo g; g.off = 0;
                for (auto gti = gep_type_begin(ge), e = gep_type_end(ge); gti != e; ++gti) {
                    const Value *ix = gti.getOperand();
                    if (auto *stt = gti.getStructTypeOrNull()) { g.off += (i64)DL.getStructLayout(stt)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    i64 sc = (i64)DL.getTypeAllocSize(gti.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(ix)) g.off += ci->getSExtValue() * sc;
                    else g.terms.push_back({opnd(ix), sc});
                }
                M.geps.push_back(g); n.op = B_GEP; n.align = ge->isInBounds(); n.a = opnd(ge->getPointerOperand()); n.aux = (u32)M.geps.size() - 1; push(); continue;
            }
            if (auto *al = dyn_cast<AllocaInst>(&I)) {
                AllocaInfo ai; ai.size = DL.getTypeAllocSize(al->getAllocatedType()); ai.align = (u32)al->getAlign().value(); ai.name = al->getName().str(); ai.scopeFn = f.nameId;
                M.allocas.push_back(ai); n.op = B_ALLOCA; n.aux = (u32)M.allocas.size() - 1; n.a = opnd(al->getArraySize()); push(); continue;
            }
            if (auto *br = dyn_cast<BranchInst>(&I)) {
                if (br->isUnconditional()) { n.op = B_BR; n.aux = bidx[br->getSuccessor(0)]; n.aux2 = edge(&B, br->getSuccessor(0)); b.succ.push_back(n.aux); }
                else { n.op = B_CBR; n.a = opnd(br->getCondition()); n.b = (int)bidx[br->getSuccessor(0)]; n.c = (int)bidx[br->getSuccessor(1)]; n.aux = edge(&B, br->getSuccessor(0)); n.aux2 = edge(&B, br->getSuccessor(1)); b.succ.push_back((u32)n.b); b.succ.push_back((u32)n.c); }
                push(); continue;
            }
            if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                SwitchInfo s; s.cond = opnd(sw->getCondition()); s.w = (u16)ew(sw->getCondition()->getType()); s.def = bidx[sw->getDefaultDest()]; s.edgeIdx.push_back(edge(&B, sw->getDefaultDest())); b.succ.push_back(s.def);
                for (auto &c : sw->cases()) { s.cases.push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]}); s.edgeIdx.push_back(edge(&B, c.getCaseSuccessor())); b.succ.push_back(bidx[c.getCaseSuccessor()]); }
                M.switches.push_back(s); n.op = B_SWITCH; n.aux = (u32)M.switches.size() - 1; n.a = s.cond; push(); continue;
            }
            if (auto *rt = dyn_cast<ReturnInst>(&I)) { n.op = B_RET; n.a = rt->getReturnValue() ? opnd(rt->getReturnValue()) : 0; n.lanes = rt->getReturnValue() ? (u16)nslots(rt->getReturnValue()->getType()) : 0; push(); continue; }
            if (isa<UnreachableInst>(I)) { n.op = B_UNREACH; push(); continue; }
            if (isa<FenceInst>(I)) { n.op = B_FENCE; push(); continue; }
            if (auto *ee = dyn_cast<ExtractElementInst>(&I)) { n.op = B_EXTELT; n.a = opnd(ee->getVectorOperand()); n.b = opnd(ee->getIndexOperand()); n.lanes = (u16)nslots(ee->getVectorOperand()->getType()); push(); continue; }
            if (auto *ie = dyn_cast<InsertElementInst>(&I)) { n.op = B_INSELT; n.a = opnd(ie->getOperand(0)); n.b = opnd(ie->getOperand(1)); n.c = opnd(ie->getOperand(2)); push(); continue; }
            if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
                n.op = B_SHUF; n.a = opnd(sv->getOperand(0)); n.b = opnd(sv->getOperand(1)); n.w2 = (u16)nslots(sv->getOperand(0)->getType());
                std::vector<int> m(sv->getShuffleMask().begin(), sv->getShuffleMask().end()); M.shufs.push_back(m); n.aux = (u32)M.shufs.size() - 1; push(); continue;
            }
            if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                Type *t = ev->getAggregateOperand()->getType(); u32 off = 0;
                for (unsigned ix : ev->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(st->getElementType(k)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * nslots(t); } }
                n.op = B_EXTVAL; n.a = opnd(ev->getAggregateOperand()); n.aux = off; push(); continue;
            }
            if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
                Type *t = iv->getAggregateOperand()->getType(); u32 off = 0;
                for (unsigned ix : iv->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(st->getElementType(k)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * nslots(t); } }
                n.op = B_INSVAL; n.a = opnd(iv->getAggregateOperand()); n.b = opnd(iv->getInsertedValueOperand()); n.aux = off; n.w2 = (u16)nslots(iv->getInsertedValueOperand()->getType()); push(); continue;
            }
            if (auto *cb = dyn_cast<CallInst>(&I)) {
                if (isa<DbgInfoIntrinsic>(cb)) continue;
                if (cb->isInlineAsm()) { n.op = B_ASM; auto *ia = cast<InlineAsm>(cb->getCalledOperand()); n.aux = str(ia->getAsmString() + "|" + ia->getConstraintString()); CallInfo ci; ci.fn = -1; ci.fptr = 0; for (auto &a : cb->args()) { ci.args.push_back(opnd(a)); ci.argW.push_back((u16)ew(a->getType())); ci.argLanes.push_back((u16)nslots(a->getType())); ci.argPtr.push_back(a->getType()->isPointerTy()); } M.calls.push_back(ci); n.aux2 = (u32)M.calls.size() - 1; push(); continue; }
                const Function *cf = cb->getCalledFunction();
                if (cf && cf->isIntrinsic()) {
                    StringRef nm = cf->getName();
                    auto intr = [&](unsigned id) { n.op = B_INTR; n.align = id; n.a = opnd(cb->getArgOperand(0)); n.w2 = (u16)ew(cb->getArgOperand(0)->getType()); n.aux = nslots(cb->getArgOperand(0)->getType()); if (cb->arg_size() > 1) n.b = opnd(cb->getArgOperand(1)); if (cb->arg_size() > 2) n.c = opnd(cb->getArgOperand(2)); push(); };
                    switch (cf->getIntrinsicID()) {
                    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::sideeffect: continue;
                    case Intrinsic::stacksave: n.op = B_MOVE; n.a = constant(ConstantPointerNull::get(cast<PointerType>(cb->getType()))); push(); continue;
                    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: case Intrinsic::memset: case Intrinsic::memset_inline: {
                        bool set = isa<MemSetInst>(cb); auto *mi = cast<MemIntrinsic>(cb);
                        n.op = set ? B_MEMSET : B_MEMCPY; n.a = opnd(cb->getArgOperand(0)); n.b = opnd(cb->getArgOperand(1)); n.c = opnd(cb->getArgOperand(2)); n.sub = mi->isVolatile(); n.w = cf->getIntrinsicID() == Intrinsic::memmove; push(); continue; }
                    case Intrinsic::expect: n.op = B_MOVE; n.a = opnd(cb->getArgOperand(0)); push(); continue;
                    case Intrinsic::objectsize: n.op = B_MOVE; n.a = constant(ConstantInt::get(cb->getType(), (u64)-1)); push(); continue;
                    case Intrinsic::is_constant: n.op = B_MOVE; n.a = constant(ConstantInt::get(cb->getType(), 0)); push(); continue;
                    case Intrinsic::fshl: intr(I_FSHL); continue; case Intrinsic::fshr: intr(I_FSHR); continue; case Intrinsic::bswap: intr(I_BSWAP); continue;
                    case Intrinsic::umin: intr(I_UMIN); continue; case Intrinsic::umax: intr(I_UMAX); continue; case Intrinsic::smin: intr(I_SMIN); continue; case Intrinsic::smax: intr(I_SMAX); continue;
                    case Intrinsic::abs: intr(I_ABS); continue; case Intrinsic::ctpop: intr(I_CTPOP); continue; case Intrinsic::usub_sat: intr(I_USUBSAT); continue; case Intrinsic::uadd_sat: intr(I_UADDSAT); continue;
                    case Intrinsic::vector_reduce_add: intr(I_REDADD); continue; case Intrinsic::vector_reduce_or: intr(I_REDOR); continue; case Intrinsic::vector_reduce_and: intr(I_REDAND); continue; case Intrinsic::vector_reduce_xor: intr(I_REDXOR); continue;
                    case Intrinsic::umul_with_overflow: intr(I_UMULO); continue; case Intrinsic::uadd_with_overflow: intr(I_UADDO); continue; case Intrinsic::usub_with_overflow: intr(I_USUBO); continue;
                    case Intrinsic::sadd_with_overflow: intr(I_SADDO); continue; case Intrinsic::ssub_with_overflow: intr(I_SSUBO); continue; case Intrinsic::smul_with_overflow: intr(I_SMULO); continue;
                    case Intrinsic::bitreverse: intr(I_BITREVERSE); continue; case Intrinsic::ctlz: intr(I_CTLZ); continue; case Intrinsic::cttz: intr(I_CTTZ); continue;
                    default: break;
                    }
                    if (nm == "llvm.x86.aesni.aesenc") { intr(I_AESENC); continue; }
                    if (nm == "llvm.x86.aesni.aesenclast") { intr(I_AESENCLAST); continue; }
                    if (nm == "llvm.x86.aesni.aeskeygenassist") { intr(I_AESKEYGEN); continue; }
                    if (nm.starts_with("llvm.x86.ssse3.pshuf.b.128") || nm.starts_with("llvm.x86.avx2.pshuf.b")) { intr(I_PSHUFB); continue; }
                    if (nm.starts_with("llvm.x86.avx2.pmadd.wd") || nm.starts_with("llvm.x86.sse2.pmadd.wd")) { intr(I_PMADDWD); continue; }
                    if (nm.starts_with("llvm.x86.avx2.pslli.") || nm.starts_with("llvm.x86.sse2.pslli.")) { intr(I_PSLL); continue; }
                    if (nm.starts_with("llvm.x86.avx2.psrli.") || nm.starts_with("llvm.x86.sse2.psrli.")) { intr(I_PSRL); continue; }
                    if (nm.starts_with("llvm.x86.avx2.psrai.") || nm.starts_with("llvm.x86.sse2.psrai.")) { intr(I_PSRA); continue; }
                    n.op = B_UNSUP; n.aux = str(nm); push(); continue;
                }
                CallInfo ci; ci.fn = cf ? fidx[cf] : -1; ci.fptr = cf ? 0 : opnd(cb->getCalledOperand()); ci.name = cf ? cf->getName().str() : "<indirect>";
                ci.varArg = cb->getFunctionType()->isVarArg();
                for (auto &a : cb->args()) { ci.args.push_back(opnd(a)); ci.argW.push_back((u16)ew(a->getType())); ci.argLanes.push_back((u16)nslots(a->getType())); ci.argPtr.push_back(a->getType()->isPointerTy()); }
                ci.retW = (u16)ew(cb->getType()); ci.retLanes = (u16)nslots(cb->getType()); ci.retPtr = cb->getType()->isPointerTy();
                M.calls.push_back(ci); n.op = B_CALL; n.aux = (u32)M.calls.size() - 1; push(); continue;
            }
            n.op = B_UNSUP; n.aux = str(I.getOpcodeName()); push();
        }
        b.count = (u32)f.code.size() - b.first;
    }
    PostDominatorTree PDT(const_cast<Function &>(F));
    f.ipdom.assign(nb, -1);
    for (auto &B : F) { auto *nd = PDT.getNode(&B); if (nd && nd->getIDom() && nd->getIDom()->getBlock()) f.ipdom[bidx[&B]] = (int)bidx[nd->getIDom()->getBlock()]; }
}
bool Ld::run() {
    M.be = DL.isBigEndian();
    for (auto &G : L.globals()) { gidx[&G] = (int)M.globals.size(); Global g; g.name = G.getName().str(); g.isConst = G.isConstant(); g.decl = G.isDeclaration(); g.internal = G.hasLocalLinkage(); g.size = DL.getTypeAllocSize(G.getValueType()); g.align = (u32)(G.getAlign() ? G.getAlign()->value() : DL.getPreferredAlign(&G).value()); g.line = 0;
        SmallVector<DIGlobalVariableExpression *, 1> gs; G.getDebugInfo(gs); if (!gs.empty()) { g.line = gs[0]->getVariable()->getLine(); g.file = gs[0]->getVariable()->getFilename().str(); }
        M.globals.push_back(g); }
    for (auto &F : L) { if (F.isIntrinsic()) continue; fidx[&F] = (int)M.funcs.size(); ::Func f; f.name = F.getName().str(); f.nameId = str(F.getName()); f.decl = F.isDeclaration(); f.internal = F.hasLocalLinkage(); f.nregs = 0; M.funcs.push_back(f); M.fnByName[f.name] = (int)M.funcs.size() - 1; }
    for (auto &G : L.globals()) { Global &g = M.globals[gidx[&G]]; g.init.assign(g.size, Cell{CELL_UNINIT, 0}); if (G.hasInitializer()) { for (auto &c : g.init) c = Cell{0, 0}; initBytes(G.getInitializer(), g.init, 0, g); } }
    for (auto &F : L) if (!F.isIntrinsic()) func(F);
    return true;
}
}
bool loadModule(const char *path, ::Module &m, std::string &err) {
    static LLVMContext ctx; SMDiagnostic d;
    auto L = parseIRFile(path, d, ctx);
    if (!L) { err = d.getMessage().str(); return false; }
    m.path = path; m.strs.push_back(""); m.locs.push_back({0, 0, 0});
    Ld l(m, *L); return l.run();
}
