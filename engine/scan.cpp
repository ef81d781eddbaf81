// Effect scan over the whole module: who may write which global variable, which external functions are used where.
// Def-use walk on LLVM IR; addresses passed to defined functions are followed through their parameters.
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdio>
#include <memory>
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
using namespace llvm;
namespace {
std::string esc(StringRef s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
struct Acc { std::string how, where, func, value; bool write; };
struct Scan {
    Module &M; std::set<const Function *> reach;
    Scan(Module &m) : M(m) {}
    std::string fileOf(const DIScope *s) { if (!s) return "?"; std::string f = s->getFilename().str(); size_t p = f.rfind("/src/"); if (p != std::string::npos) f = f.substr(p + 5); while (f.compare(0, 2, "./") == 0) f = f.substr(2); return f; }
    std::string where(const Instruction *i) { if (auto &l = i->getDebugLoc()) return fileOf(l->getScope()) + ":" + std::to_string(l->getLine()); if (auto *sp = i->getFunction()->getSubprogram()) return fileOf(sp) + ":" + std::to_string(sp->getLine()); return "?:0"; }
    static bool pureExt(StringRef n) { static const std::set<std::string> p = {"memcmp", "bcmp", "strlen", "strcmp", "strncmp", "memchr", "CRYPTO_memcmp"}; return p.count(n.str()) > 0; }
    std::string describe(const Value *v, const GlobalVariable *self, int depth = 0) {    // what is stored into a global
        if (auto *c = dyn_cast<ConstantInt>(v)) return "const:" + std::to_string(c->getSExtValue());
        if (isa<ConstantPointerNull>(v)) return "const:0";
        if (auto *c = dyn_cast<CallBase>(v)) if (auto *f = c->getCalledFunction()) {
            if (f->isDeclaration()) return "call:" + f->getName().str();
            std::string r; if (depth < 6) for (auto &b : *f) if (auto *rt = dyn_cast<ReturnInst>(b.getTerminator())) { if (!rt->getReturnValue()) return "other"; std::string x = describe(rt->getReturnValue(), self, depth + 1); if (!r.empty()) r += "|"; r += x; } return r.empty() ? "other" : r;
        }
        if (auto *l = dyn_cast<LoadInst>(v)) if (l->getPointerOperand()->stripPointerCasts() == self) return "self";
        if (auto *p = dyn_cast<PHINode>(v)) { if (depth > 6) return "other"; std::string r; for (auto &x : p->incoming_values()) { if (x == v) continue; if (!r.empty()) r += "|"; r += describe(x, self, depth + 1); } return r; }
        if (auto *s = dyn_cast<SelectInst>(v)) { if (depth > 6) return "other"; return describe(s->getTrueValue(), self, depth + 1) + "|" + describe(s->getFalseValue(), self, depth + 1); }
        if (auto *c = dyn_cast<CastInst>(v)) return describe(c->getOperand(0), self, depth + 1);
        return "other";
    }
    void walk(const Value *v, const GlobalVariable *g, std::set<const Value *> &seen, std::vector<Acc> &out) {
        if (!seen.insert(v).second) return;
        for (auto &u : v->uses()) {
            const User *us = u.getUser();
            if (auto *c = dyn_cast<Constant>(us)) {
                if (auto *gv = dyn_cast<GlobalVariable>(c)) { if (gv->getName() == "llvm.used" || gv->getName() == "llvm.compiler.used") continue; out.push_back({"its address is stored in " + gv->getName().str(), "?:0", "-", "other", false}); continue; }
                walk(c, g, seen, out); continue;
            }
            auto *i = dyn_cast<Instruction>(us); if (!i) continue;
            const Function *F = i->getFunction(); if (!reach.count(F)) continue;
            auto add = [&](const char *how, bool w, const std::string &val = "other") { out.push_back({how, where(i), F->getName().str(), val, w}); };
            if (isa<LoadInst>(i)) { add("load", false); continue; }
            if (auto *s = dyn_cast<StoreInst>(i)) { if (u.getOperandNo() == 1) add("store", true, describe(s->getValueOperand(), g)); else add("its address is stored", true); continue; }
            if (isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i)) { add("atomic update", true); continue; }
            if (isa<ICmpInst>(i)) continue;
            if (isa<GetElementPtrInst>(i) || isa<CastInst>(i) || isa<PHINode>(i) || isa<SelectInst>(i)) { if (isa<PtrToIntInst>(i)) { add("its address is converted to an integer", true); continue; } walk(i, g, seen, out); continue; }
            if (auto *mi = dyn_cast<MemIntrinsic>(i)) { if (u.getOperandNo() == 0) add("memory function destination", true); else add("load", false); (void)mi; continue; }
            if (auto *cb = dyn_cast<CallBase>(i)) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                if (auto *ii = dyn_cast<IntrinsicInst>(i)) { if (ii->getIntrinsicID() == Intrinsic::lifetime_start || ii->getIntrinsicID() == Intrinsic::lifetime_end) continue; StringRef n = ii->getCalledFunction()->getName(); if (n.contains("load") || n.contains("gather")) { add("load", false); continue; } add("passed to an intrinsic", true); continue; }
                const Function *cf = cb->getCalledFunction();
                if (cb->isCallee(&u)) continue;
                if (!cf) { add("passed to an indirect call", true); continue; }
                unsigned n = u.getOperandNo();
                if (cf->isDeclaration()) {
                    StringRef nm = cf->getName();
                    if (pureExt(nm) || ((nm == "memcpy" || nm == "memmove") && n == 1)) add("load", false);
                    else if (cb->paramHasAttr(n, Attribute::ReadOnly) || cb->paramHasAttr(n, Attribute::ReadNone)) add("load", false);
                    else if ((nm.starts_with("EVP_") && !(nm == "EVP_EncryptUpdate" && (n == 1 || n == 2))) || nm == "fopen" || nm == "open") add("load", false);       // cipher inputs are read only (outputs never point to globals here)
                    else { std::string h = "passed to " + nm.str(); add(h.c_str(), true); }
                    continue;
                }
                if (n < cf->arg_size()) walk(cf->getArg(n), g, seen, out); else add("passed as a variable argument", true);
                continue;
            }
            if (isa<ReturnInst>(i)) { for (auto *cu : F->users()) if (auto *cb = dyn_cast<CallBase>(cu)) walk(cb, g, seen, out); continue; }
            add("unrecognised use", true);
        }
    }
    const GlobalVariable *strOf(const Value *v) { return dyn_cast<GlobalVariable>(v->stripPointerCasts()); }
    std::string argText(const Value *v) {
        if (auto *c = dyn_cast<ConstantInt>(v)) return std::to_string(c->getSExtValue());
        if (auto *g = strOf(v)) { if (g->hasInitializer() && g->isConstant()) if (auto *d = dyn_cast<ConstantDataArray>(g->getInitializer())) if (d->isCString()) return "str:" + d->getAsCString().str(); return "@" + g->getName().str(); }
        if (auto *l = dyn_cast<LoadInst>(v)) if (auto *g = strOf(l->getPointerOperand())) return "load:" + g->getName().str();
        return "?";
    }
    void run(const char *path) {
        // roots: everything other code can call or that runs by itself
        std::vector<const Function *> st; auto push = [&](const Function *f) { if (f && !f->isDeclaration() && reach.insert(f).second) st.push_back(f); };
        for (auto &f : M) if (!f.isDeclaration() && !f.hasLocalLinkage()) push(&f);
        for (auto &g : M.globals()) if (g.getName() == "llvm.global_ctors" && g.hasInitializer()) { std::vector<const Value *> w{g.getInitializer()}; while (!w.empty()) { auto *v = w.back(); w.pop_back(); if (auto *f = dyn_cast<Function>(v)) push(f); if (auto *u = dyn_cast<User>(v)) for (auto &o : u->operands()) w.push_back(o); } }
        std::map<std::string, std::vector<std::string>> ext; std::vector<std::string> asms; std::set<const Value *> sc; long ncalls = 0, nins = 0;
        while (!st.empty()) {
            const Function *f = st.back(); st.pop_back();
            for (auto &b : *f) for (auto &i : b) {
                nins++;
                if (isa<DbgInfoIntrinsic>(&i)) continue;
                if (auto *cb = dyn_cast<CallBase>(&i)) {
                    ncalls++;
                    if (auto *ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) { std::string s = ia->getAsmString(); bool empty = s.find_first_not_of(" \t\n;") == std::string::npos; if (!empty) asms.push_back("{\"where\":\"" + esc(where(&i)) + "\",\"func\":\"" + esc(f->getName()) + "\",\"text\":\"" + esc(s) + "\"}"); }
                }
                for (auto &o : i.operands()) {
                    std::vector<const Value *> w{o.get()};
                    while (!w.empty()) {
                        const Value *v = w.back(); w.pop_back();
                        if (auto *g = dyn_cast<Function>(v)) {
                            if (!g->isDeclaration()) { push(g); continue; }
                            auto *cb = dyn_cast<CallBase>(&i); std::string a; bool direct = cb && cb->getCalledFunction() == g;
                            if (direct) for (auto &x : cb->args()) a += (a.empty() ? "\"" : ",\"") + esc(argText(x)) + "\"";
                            auto &e = ext[g->getName().str()]; if (e.size() < 40) e.push_back("{\"where\":\"" + esc(where(&i)) + "\",\"func\":\"" + esc(f->getName()) + "\",\"direct\":" + (direct ? "true" : "false") + ",\"args\":[" + a + "]}");
                        } else if (isa<ConstantExpr>(v) || isa<ConstantAggregate>(v)) { for (auto &x : cast<User>(v)->operands()) w.push_back(x); }
                        else if (auto *gv = dyn_cast<GlobalVariable>(v)) { if (gv->hasInitializer() && sc.insert(gv).second) w.push_back(gv->getInitializer()); }
                    }
                }
            }
        }
        // which functions run only underneath randombytes
        std::set<const Function *> other; { std::vector<const Function *> s2; for (auto &f : M) if (!f.isDeclaration() && !f.hasLocalLinkage() && f.getName() != "randombytes") { s2.push_back(&f); other.insert(&f); }
            while (!s2.empty()) { auto *f = s2.back(); s2.pop_back(); for (auto &b : *f) for (auto &i : b) for (auto &o : i.operands()) if (auto *g = dyn_cast<Function>(o.get())) if (!g->isDeclaration() && g->getName() != "randombytes" && other.insert(g).second) s2.push_back(g); } }
        std::string gl; int ng = 0, nmut = 0;
        for (auto &g : M.globals()) {
            if (g.getName().starts_with("llvm.")) continue; ng++;
            if (g.isConstant() && !g.isDeclaration()) continue; nmut++;
            std::set<const Value *> seen; std::vector<Acc> acc; walk(&g, &g, seen, acc);
            std::string w; int reads = 0, shown = 0;
            for (auto &a : acc) { if (!a.write && a.how == "load") { reads++; continue; } if (shown++ > 12) continue; const Function *af = M.getFunction(a.func); w += (w.empty() ? "" : ",") + std::string("{\"how\":\"") + esc(a.how) + "\",\"where\":\"" + esc(a.where) + "\",\"func\":\"" + esc(a.func) + "\",\"value\":\"" + esc(a.value) + "\",\"write\":" + (a.write ? "true" : "false") + ",\"rng\":" + (af && !other.count(af) ? "true" : "false") + "}"; }
            bool rngRead = true; std::string rd;
            for (auto &a : acc) if (a.how == "load") { const Function *af = M.getFunction(a.func); if (!af || other.count(af)) { rngRead = false; rd = a.where + " " + a.func; } }
            SmallVector<DIGlobalVariableExpression *, 1> gve; g.getDebugInfo(gve); std::string wh = "?:0"; if (!gve.empty()) wh = fileOf(gve[0]->getVariable()->getFile()) + ":" + std::to_string(gve[0]->getVariable()->getLine());
            gl += (gl.empty() ? "" : ",") + std::string("{\"name\":\"") + esc(g.getName()) + "\",\"where\":\"" + esc(wh) + "\",\"decl\":" + (g.isDeclaration() ? "true" : "false") + ",\"tls\":" + (g.isThreadLocal() ? "true" : "false") + ",\"scalar\":" + (g.getValueType()->isIntegerTy() || g.getValueType()->isPointerTy() ? "true" : "false") + ",\"reads\":" + std::to_string(reads) + ",\"rngreads\":" + (rngRead ? "true" : "false") + ",\"writes\":[" + w + "]}";
        }
        std::string ex; for (auto &e : ext) { std::string l; for (auto &x : e.second) l += (l.empty() ? "" : ",") + x; ex += (ex.empty() ? "" : ",") + std::string("{\"name\":\"") + esc(e.first) + "\",\"sites\":[" + l + "]}"; }
        std::string as; for (auto &a : asms) as += (as.empty() ? "" : ",") + a;
        std::string fn; for (auto *f : reach) fn += (fn.empty() ? "\"" : ",\"") + esc(f->getName()) + "\"";
        printf("{\"kind\":\"scan\",\"bc\":\"%s\",\"nfuncs\":%zu,\"instructions\":%ld,\"callsites\":%ld,\"nglobals\":%d,\"mutable\":%d,\"globals\":[%s],\"ext\":[%s],\"asm\":[%s],\"funcs\":[%s]}\n", path, reach.size(), nins, ncalls, ng, nmut, gl.c_str(), ex.c_str(), as.c_str(), fn.c_str());
    }
};
// Lengths: values computed from the 64-bit length parameters of the given functions, followed through arithmetic and calls.
// A conversion to fewer bits loses length unless the value is known to fit (remainder, mask, or a dominating comparison).
struct Narrow {
    Scan &S; Module &M; std::map<const Value *, int> len;      // 1: length in bytes (or units as small), 2: divided by something
    std::vector<std::string> out; long seenConv = 0; std::set<const Instruction *> rep; std::map<const Function *, std::unique_ptr<DominatorTree>> dts;
    Narrow(Scan &s) : S(s), M(s.M) {}
    DominatorTree &dt(Function *f) { auto &p = dts[f]; if (!p) p = std::make_unique<DominatorTree>(*f); return *p; }
    static bool fits(const Value *v, unsigned w) {
        if (auto *c = dyn_cast<ConstantInt>(v)) return c->getValue().getActiveBits() <= w;
        if (auto *z = dyn_cast<ZExtInst>(v)) return z->getSrcTy()->getIntegerBitWidth() <= w;
        return false;
    }
    bool boundedAt(Value *v, Instruction *at, unsigned w) {     // a comparison v < b, b fitting w bits, holds here
        Function *f = at->getFunction(); DominatorTree &D = dt(f);
        std::vector<Value *> alias = {v}; if (auto *p = dyn_cast<PHINode>(v)) if (p->getNumIncomingValues() == 1) alias.push_back(p->getIncomingValue(0));
        for (Value *x : alias) for (auto *u : x->users()) if (auto *c = dyn_cast<ICmpInst>(u)) {
            bool left = c->getOperand(0) == x; Value *o = c->getOperand(left ? 1 : 0); if (!fits(o, w)) continue;
            auto pr = left ? c->getPredicate() : c->getSwappedPredicate(); int side = -1;      // successor on which x <= o
            if (pr == ICmpInst::ICMP_ULT || pr == ICmpInst::ICMP_ULE || pr == ICmpInst::ICMP_EQ) side = 0; else if (pr == ICmpInst::ICMP_UGE || pr == ICmpInst::ICMP_UGT || pr == ICmpInst::ICMP_NE) side = 1; else continue;
            for (auto *b : c->users()) {
                if (auto *br = dyn_cast<BranchInst>(b)) if (br->isConditional()) { BasicBlockEdge e(br->getParent(), br->getSuccessor((unsigned)side)); if (D.dominates(e, at->getParent())) return true; }
                if (auto *se = dyn_cast<SelectInst>(b)) { (void)se; return true; }
            }
        }
        return false;
    }
    bool remainder(const Value *v) {      // x - (x / c) * c
        auto *b = dyn_cast<BinaryOperator>(v); if (!b || b->getOpcode() != Instruction::Sub) return false;
        auto *m = dyn_cast<BinaryOperator>(b->getOperand(1)); if (!m) return false;
        Value *q = nullptr; if (m->getOpcode() == Instruction::Mul) q = isa<Constant>(m->getOperand(1)) ? m->getOperand(0) : m->getOperand(1); else if (m->getOpcode() == Instruction::Shl) q = m->getOperand(0); else if (m->getOpcode() == Instruction::And) return m->getOperand(0) == b->getOperand(0);
        auto *d = dyn_cast_or_null<BinaryOperator>(q); return d && (d->getOpcode() == Instruction::UDiv || d->getOpcode() == Instruction::LShr) && d->getOperand(0) == b->getOperand(0);
    }
    void run(const std::vector<std::string> &roots) {
        std::vector<Value *> wl; auto mark = [&](Value *v, int k) { int &x = len[v]; if (x == 0 || k < x) { x = k; wl.push_back(v); } };
        for (auto &r : roots) if (Function *f = M.getFunction(r)) if (!f->isDeclaration()) for (auto &a : f->args()) if (a.getType()->isIntegerTy(64)) mark(&a, 1);
        while (!wl.empty()) {
            Value *v = wl.back(); wl.pop_back(); int k = len[v];
            for (auto *u : v->users()) {
                auto *i = dyn_cast<Instruction>(u); if (!i) continue;
                if (auto *t = dyn_cast<TruncInst>(i)) {
                    unsigned w = t->getType()->getIntegerBitWidth(); seenConv++;
                    // only as many bits are needed as used: trunc under a mask is not a length any more
                    if (w >= 32 && k == 2) { mark(t, k); continue; }        // 2^32 blocks: beyond any buffer
                    if (w == 1 || boundedAt(v, i, w)) continue;
                    bool counts = false; std::vector<Value *> q{t}; std::set<Value *> sn; while (!q.empty()) { Value *x = q.back(); q.pop_back(); if (!sn.insert(x).second) continue; for (auto *y : x->users()) { if (isa<BinaryOperator>(y)) { auto op = cast<BinaryOperator>(y)->getOpcode(); if (auto *kc = dyn_cast<ConstantInt>(cast<User>(y)->getOperand(1))) if (op == Instruction::And || (op == Instruction::URem && kc->getValue().isPowerOf2())) continue; q.push_back(y); } else if (isa<CastInst>(y) || isa<PHINode>(y) || isa<SelectInst>(y)) q.push_back(y); else if (isa<StoreInst>(y)) { if (cast<StoreInst>(y)->getValueOperand() != x) counts = true; } else counts = true; } }
                    if (counts && rep.insert(i).second) out.push_back("{\"where\":\"" + esc(S.where(i)) + "\",\"func\":\"" + esc(i->getFunction()->getName()) + "\",\"bits\":" + std::to_string(w) + "}");
                    continue;
                }
                if (auto *c = dyn_cast<ICmpInst>(i)) {      // a counter of 8 or 16 bits compared with a length never reaches it
                    Value *o = c->getOperand(c->getOperand(0) == v ? 1 : 0); if (auto *z = dyn_cast<ZExtInst>(o)) if (z->getSrcTy()->getIntegerBitWidth() <= 16 && isa<PHINode>(z->getOperand(0)) && !boundedAt(v, i, z->getSrcTy()->getIntegerBitWidth())) { seenConv++; if (rep.insert(i).second) out.push_back("{\"where\":\"" + esc(S.where(i)) + "\",\"func\":\"" + esc(i->getFunction()->getName()) + "\",\"bits\":" + std::to_string(z->getSrcTy()->getIntegerBitWidth()) + "}"); }
                    continue;
                }
                if (auto *b = dyn_cast<BinaryOperator>(i)) {
                    switch (b->getOpcode()) {
                    case Instruction::URem: if (b->getOperand(0) == v && isa<ConstantInt>(b->getOperand(1))) continue; break;
                    case Instruction::And: if (isa<ConstantInt>(b->getOperand(1)) && fits(b->getOperand(1), 32)) continue; break;
                    case Instruction::UDiv: if (b->getOperand(0) == v) { mark(b, 2); continue; } break;
                    case Instruction::LShr: if (b->getOperand(0) == v) { if (auto *c = dyn_cast<ConstantInt>(b->getOperand(1))) if (c->getZExtValue() >= 32) continue; mark(b, 2); continue; } break;
                    case Instruction::Sub: if (remainder(b)) continue; break;
                    case Instruction::Mul: case Instruction::Shl: mark(b, 1); continue;
                    default: break;
                    }
                    mark(b, k); continue;
                }
                if (isa<PHINode>(i) || isa<SelectInst>(i)) { if (auto *se = dyn_cast<SelectInst>(i)) if (se->getCondition() == v || fits(se->getTrueValue(), 32) || fits(se->getFalseValue(), 32)) continue; mark(i, k); continue; }
                if (isa<ZExtInst>(i) || isa<SExtInst>(i) || isa<FreezeInst>(i)) { mark(i, k); continue; }
                if (auto *cb = dyn_cast<CallBase>(i)) if (Function *g = cb->getCalledFunction()) if (!g->isDeclaration()) for (unsigned n = 0; n < cb->arg_size() && n < g->arg_size(); n++) if (cb->getArgOperand(n) == v) mark(g->getArg(n), k);
            }
        }
    }
};
}
int narrowTask(int argc, char **argv) {        // narrow <root,root,...> files
    std::vector<std::string> roots; { std::string s = argv[0]; size_t p; while ((p = s.find(',')) != std::string::npos) { roots.push_back(s.substr(0, p)); s = s.substr(p + 1); } roots.push_back(s); }
    for (int a = 1; a < argc; a++) {
        LLVMContext C; SMDiagnostic D; auto M = parseIRFile(argv[a], D, C);
        if (!M) { printf("{\"kind\":\"error\",\"bc\":\"%s\",\"msg\":\"unreadable module\"}\n", argv[a]); continue; }
        Scan S(*M); Narrow N(S); N.run(roots); std::string o; for (auto &x : N.out) o += (o.empty() ? "" : ",") + x;
        printf("{\"kind\":\"narrow\",\"bc\":\"%s\",\"values\":%zu,\"conversions\":%ld,\"lost\":[%s]}\n", argv[a], N.len.size(), N.seenConv, o.c_str());
    }
    return 0;
}
int scanTask(int argc, char **argv) {
    for (int a = 0; a < argc; a++) {
        LLVMContext C; SMDiagnostic D; auto M = parseIRFile(argv[a], D, C);
        if (!M) { printf("{\"kind\":\"error\",\"bc\":\"%s\",\"msg\":\"unreadable module\"}\n", argv[a]); continue; }
        Scan(*M).run(argv[a]);
    }
    return 0;
}
