#include <sys/resource.h>
#include "interp.hpp"

std::function<void(std::function<void(u32)>)> extraRoots;
void schedRoots(std::function<void(u32)> mk);

Interp::Interp(Module &mm) : m(mm) {
    regs.resize(1); regs[0].alive = false; regs[0].name = "null"; regs[0].size = 0; regs[0].kind = R_HANDLE; regs[0].c = nullptr; regs[0].wr = nullptr; regs[0].fl = nullptr;
    for (auto &g : m.globals) {
        u32 r = newRegion(g.name, g.size, g.align ? g.align : 1, R_GLOBAL, 0);
        regs[r].ro = g.isConst;
        for (u64 i = 0; i < g.size; i++) if (g.init[i].id != CELL_UNINIT) regs[r].c[i] = g.init[i];
        globalRegion.push_back(r);
    }
    for (auto &f : m.funcs) { u32 r = newRegion("fn:" + f.name, 0, 16, R_FUNC, 0); regs[r].aux = (u32)funcRegion.size(); funcRegion.push_back(r); }
    for (size_t i = 0; i < m.globals.size(); i++) for (auto &rl : m.globals[i].relocs) {
        V p = std::get<3>(rl) ? vptr(funcRegion[std::get<1>(rl)], 0) : vptr(globalRegion[std::get<1>(rl)], std::get<2>(rl));
        vToCells(p, regs[globalRegion[i]].c + std::get<0>(rl), 8, m.be);
    }
    pool = m.pool;
    for (auto &f : m.poolFix) pool[f.first] = f.second == 1 ? vptr(globalRegion[pool[f.first].a], (i64)pool[f.first].b) : vptr(funcRegion[pool[f.first].a], 0);
    reached.assign(m.funcs.size(), 0); hookOf.assign(m.funcs.size(), nullptr);
    stack.resize(1 << 16);
}
Interp::~Interp() { for (auto &r : regs) { free(r.c); free(r.wr); free(r.fl); } }
u32 Interp::newRegion(const std::string &name, u64 size, u32 align, u8 kind, u32 ownerFn) {
    Region r; r.name = name; r.size = size; r.align = align; r.kind = kind; r.alive = true; r.ro = false; r.ownerFn = ownerFn; r.aux = 0; r.aux2 = 0; r.everSecret = false;
    r.c = (Cell *)malloc(sizeof(Cell) * (size + 1)); r.wr = (u32 *)calloc(size + 1, 4); r.fl = (u8 *)calloc(size + 1, 1);
    for (u64 i = 0; i < size; i++) r.c[i] = Cell{CELL_UNINIT, ++uninitCtr};
    regs.push_back(r); return (u32)regs.size() - 1;
}
void Interp::killRegion(u32 r) { regs[r].alive = false; if (!journaling) { free(regs[r].c); free(regs[r].wr); free(regs[r].fl); regs[r].c = nullptr; regs[r].wr = nullptr; regs[r].fl = nullptr; } }
std::string Interp::where(u32 loc) const { const Loc &l = m.locs[loc]; return m.strs[l.file] + ":" + std::to_string(l.line); }
void Interp::report(const std::string &cls, const std::string &msg, u32 loc) {
    std::string k = cls + "@" + where(loc) + "/" + funcOf(loc);
    auto it = fidx.find(k);
    if (it != fidx.end()) { findings[it->second].count++; return; }
    fidx[k] = findings.size(); findings.push_back({cls, msg, where(loc), funcOf(loc), 1});
}
bool Interp::resolve(const V &p, u64 n, u32 &r, i64 &off, u32 loc, bool write, const char *what) {
    if (p.k == K_CONST) { report("oob", std::string(what) + " through a null or integer pointer", loc); return false; }
    if (p.k == K_NODE) { report(taintOf(p) & T_UNINIT ? "uninit" : "undecided", std::string(what) + " through a pointer of unknown origin (" + showV(p) + ")", loc); return false; }
    if (p.k == K_PTRX) { report("undecided", std::string(what) + " at a data-dependent address", loc); return false; }
    r = p.a; off = (i64)p.b;
    Region &R = regs[r];
    if (R.kind == R_FUNC || R.kind == R_HANDLE) { report("oob", std::string(what) + " inside " + R.name, loc); return false; }
    if (!R.alive) { report("lifetime", std::string(what) + " of " + R.name + " after the end of its lifetime", loc); return false; }
    if (n && (off < 0 || (u64)off + n > R.size)) {
        report("oob", std::string(what) + " of " + std::to_string(n) + " byte(s) at offset " + std::to_string(off) + " of " + R.name + " (" + std::to_string(R.size) + " bytes)", loc); return false;
    }
    if (write && n) {
        if (R.ro) { report(R.kind == R_IN ? "inputwrite" : "constwrite", std::string("write to ") + (R.kind == R_IN ? "the caller's input " : "read-only data ") + R.name, loc); return false; }
        if (R.kind == R_GLOBAL) { if (writtenGlobals.insert(r).second) report("globalwrite", "write to process-wide mutable variable " + R.name, loc); }
    }
    return true;
}
static bool alignedOk(const Region &R, i64 off, u32 align) { return align <= 1 || (R.align >= align && (off & (align - 1)) == 0) || (R.align && (off & (align - 1)) == 0 && R.align >= align); }
bool Interp::readBytes(const V &p, u64 n, Cell *out, u32 align, u32 loc, const char *what) {
    u32 r; i64 off;
    if (n == 0) return true;
    if (!resolve(p, n, r, off, loc, false, what)) { for (u64 i = 0; i < n; i++) { V v = opaque(8, 0); out[i] = Cell{v.a, 0}; } return false; }
    Region &R = regs[r];
    if (!alignedOk(R, off, align)) report("align", std::string(what) + " assumes " + std::to_string(align) + "-byte alignment of " + R.name + "+" + std::to_string(off) + ", which is only guaranteed to be " + std::to_string(R.align) + "-byte aligned", loc);
    if (R.kind == R_OUT) for (u64 i = 0; i < n; i++) if (R.c[off + i].id == CELL_UNINIT) { report("outread", "read of caller's output buffer " + R.name + "+" + std::to_string(off + i) + " before it was written", loc); break; }
    memcpy(out, R.c + off, n * sizeof(Cell));
    if (trackFlags && R.everSecret) for (u64 i = 0; i < n; i++) R.fl[off + i] = 0;
    return true;
}
bool Interp::writeBytes(const V &p, u64 n, const Cell *in, u32 align, u32 loc, bool vol, const char *what) {
    u32 r; i64 off;
    if (n == 0) return true;
    if (!resolve(p, n, r, off, loc, true, what)) return false;
    Region &R = regs[r];
    if (!alignedOk(R, off, align)) report("align", std::string(what) + " assumes " + std::to_string(align) + "-byte alignment of " + R.name + "+" + std::to_string(off) + ", which is only guaranteed to be " + std::to_string(R.align) + "-byte aligned", loc);
    if (journaling) for (u64 i = 0; i < n; i++) journal.push_back({r, (u64)off + i, R.c[off + i], R.wr[off + i], R.fl[off + i]});
    if (trackFlags && R.kind != R_OUT && R.kind != R_IN) {
        for (u64 i = 0; i < n; i++) {
            bool ns = byteTaint(in[i]) & T_SECRET;
            if (ns) { R.everSecret = true; R.fl[off + i] = 0; }
            else if (R.everSecret) {
                Cell o = R.c[off + i];
                if (vol) R.fl[off + i] = 0;
                else if (R.fl[off + i] == 1) { /* still pending: keep the older secret */ }
                else if (byteTaint(o) & T_SECRET) { R.fl[off + i] = 1; pendingErase[{r, (u32)(off + i)}] = o; }
            }
        }
    }
    memcpy(R.c + off, in, n * sizeof(Cell));
    for (u64 i = 0; i < n; i++) R.wr[off + i] = loc;
    return true;
}
u64 Interp::lenArg(const V &v, u32 loc, bool &ok, const char *what) {
    ok = v.k == K_CONST;
    if (!ok) { if (taintOf(v) & T_SECRET) report("ct", std::string("length of ") + what + " depends on secret data", loc); report("undecided", std::string("length of ") + what + " is data dependent", loc); return 0; }
    return v.b;
}
bool Interp::secretByte(const Cell &c) { if (!(byteTaint(c) & T_SECRET)) return false; u128 h = byteId(c); return secretSet->count(h) || (!condSecret.empty() && condSecret.count(h)); }
void Interp::scanErase(u32 r, const std::string &fn, const char *when) {
    if (!eraseCheck || !secretSet || (eraseExempt && eraseExempt(fn))) return;
    if (eraseExempt) for (auto &c : fnStack) if (eraseExempt(c)) return;
    Region &R = regs[r];
    if (!R.everSecret || !R.c) return;
    for (u64 i = 0; i < R.size; i++) {
        if (R.fl[i] == 1) {
            auto it = pendingErase.find({r, (u32)i});
            if (it != pendingErase.end() && secretByte(it->second)) {
                report("erase", "secret byte in " + R.name + "[" + std::to_string(i) + "] of " + fn + " is overwritten only by a store the compiler may remove (never read again, not volatile)", R.wr[i]); return;
            }
        }
        if (secretByte(R.c[i])) {
            report("erase", "secret byte " + showCell(R.c[i]) + " is still in " + R.name + "[" + std::to_string(i) + "] of " + fn + " " + when, R.wr[i]); return;
        }
    }
}
void Interp::frameExit(Frame &fr) {
    for (u32 r : fr.allocas) { scanErase(r, fr.f->name, "when it returns"); killRegion(r); }
    fr.allocas.clear();
}
void Interp::gcRoots() {
    polyGC([&](std::function<void(u32)> mk) {
        for (size_t i = 0; i < sp && i < stack.size(); i++) if (stack[i].k == K_NODE) mk(stack[i].a);
        for (auto &v : pool) if (v.k == K_NODE) mk(v.a);
        for (auto &R : regs) if (R.c) for (u64 i = 0; i < R.size; i++) if (R.c[i].id >= 2) mk(R.c[i].id);
        for (auto &j : journal) mk(j.c.id);
        for (auto &p : pendingErase) mk(p.second.id);
        for (auto &p : ptrx) for (auto &t : p.terms) if (t.first.k == K_NODE) mk(t.first.a);
        for (auto &e : evp) for (auto &c : e.key) if (c.id >= 2) mk(c.id);
        schedRoots(mk);
        if (extraRoots) extraRoots(mk);
    });
    lastGC = polyLive();
}
static V ptrBin(Interp &I, u8 op, const V &x, const V &y, unsigned w, u32 loc) {
    // arithmetic on pointers that were converted to integers, and comparisons
    if (op == O_ADD && x.k == K_PTR && y.k == K_CONST) return vptr(x.a, (i64)(x.b + y.b));
    if (op == O_ADD && y.k == K_PTR && x.k == K_CONST) return vptr(y.a, (i64)(x.b + y.b));
    if (op == O_SUB && x.k == K_PTR && y.k == K_CONST) return vptr(x.a, (i64)(x.b - y.b));
    if (x.k == K_PTR && y.k == K_PTR && x.a == y.a) {
        if (op == O_SUB) return vconst(w, x.b - y.b);
        if (op >= O_EQ) return binop((Op)op, vconst(64, x.b), vconst(64, y.b));
    }
    if (op == O_AND && x.k == K_PTR && y.k == K_CONST) {
        u64 al = I.regs[x.a].align; if (al > y.b) return vconst(w, x.b & y.b);
    }
    if ((op == O_EQ || op == O_NE)) {
        bool xp = x.k == K_PTR || x.k == K_PTRX, yp = y.k == K_PTR || y.k == K_PTRX;
        if ((xp && y.k == K_CONST && y.b < 4096) || (yp && x.k == K_CONST && x.b < 4096)) return vconst(1, op == O_NE);
        if (x.k == K_PTR && y.k == K_PTR && x.a != y.a) return vconst(1, op == O_NE);
    }
    if (I.ptrOrder && x.k == K_PTR && y.k == K_PTR && x.a != y.a && (op >= O_EQ || op == O_SUB)) {       // overlap tests of vectorised loops: objects lie apart, in a fixed order
        u64 ax = ((u64)(x.a + 1) << 36) + x.b, ay = ((u64)(y.a + 1) << 36) + y.b;
        return op == O_SUB ? vconst(w, ax - ay) : binop((Op)op, vconst(64, ax), vconst(64, ay));
    }
    if (op >= O_EQ) { if (x.k == K_PTR && y.k == K_PTR && x.a != y.a) { Bit b = bopaque(mixt(991, ((u128)x.a << 64) + y.a), 0); return mkBits(&b, 1); } }
    (void)loc;
    return opaque(op >= O_EQ ? 1 : w, taintOf(x) | taintOf(y));
}
static inline bool isP(const V &v) { return v.k == K_PTR || v.k == K_PTRX; }

V Interp::load(const V &p, unsigned w, unsigned lanes, V *out, const Ins &in) {
    unsigned eb = (w + 7) / 8;
    if (p.k == K_PTRX) {
        PtrX &x = ptrx[p.a]; u8 ta = 0; for (auto &t : x.terms) ta |= taintOf(t.first);
        if ((ta & T_SECRET) && ctCheck && !(ctExempt && ctExempt(funcOf(in.loc)))) report("ct", "memory address depends on secret data (table " + regs[x.region].name + ")", in.loc);
        if (ta & T_UNINIT) report("uninit", "memory address depends on uninitialised data", in.loc);
        Region &R = regs[x.region];
        if (lanes == 1 && x.terms.size() == 1 && R.alive && R.c) {
            V ix = x.terms[0].first; i64 sc = x.terms[0].second, o0 = x.off; bool ok; bool oob = false;
            V r = tableLookup(ix, [&](u64 i, u64 &v) { i64 o = o0 + sx(i, 64) * sc; if (o < 0 || (u64)o + eb > R.size) { oob = true; v = 0; return false; } V t = cellsToV(R.c + o, eb, m.be); if (t.k != K_CONST) return false; v = t.b & maskw(w); return true; }, w, ok);
            if (oob) report("oob", "load from " + R.name + " (" + std::to_string(R.size) + " bytes) at an index that can exceed it", in.loc);
            if (ok) { out[0] = r; return r; }
        }
        report("undecided", "load from " + R.name + " at a data-dependent address", in.loc);
        for (unsigned l = 0; l < lanes; l++) out[l] = opaque(w, ta);
        return out[0];
    }
    Cell buf[512]; u64 nb = (u64)eb * lanes;
    if (nb > 512) { report("unsup", "very wide load", in.loc); for (unsigned l = 0; l < lanes; l++) out[l] = opaque(w, 0); return out[0]; }
    readBytes(p, nb, buf, in.align, in.loc, "read");
    for (unsigned l = 0; l < lanes; l++) { V v = cellsToV(buf + (size_t)l * eb, eb, m.be); if (v.w != w && v.k != K_PTR) v = vtrunc(v, w); out[l] = v; }
    return out[0];
}
// AES-NI on bit level: used by the primitive check
static const u8 *aesSbox() {
    static u8 s[256]; static bool init = false;
    if (!init) {
        auto mul = [](u8 a, u8 b) { u8 r = 0; while (b) { if (b & 1) r ^= a; a = (u8)((a << 1) ^ ((a >> 7) * 0x1b)); b >>= 1; } return r; };
        for (int i = 0; i < 256; i++) {
            u8 inv = 0; if (i) for (int j = 1; j < 256; j++) if (mul((u8)i, (u8)j) == 1) { inv = (u8)j; break; }
            u8 x = inv; for (int k = 1; k < 5; k++) x ^= (u8)((inv << k) | (inv >> (8 - k))); s[i] = x ^ 0x63;
        }
        init = true;
    }
    return s;
}
V sboxV(const V &x) { bool ok; const u8 *s = aesSbox(); V r = tableLookup(x, [&](u64 i, u64 &v) { v = s[i & 255]; return true; }, 8, ok); if (!ok) return opaque(8, taintOf(x)); return r; }
V xtimeV(const V &x) {
    Bit b[8], o[8]; bitsOf(x, b);
    for (int k = 0; k < 8; k++) { o[k] = k ? b[k - 1] : bconst(0); if (0x1b >> k & 1) o[k] = bxor(o[k], b[7]); }
    return mkBits(o, 8);
}
static V x8(const V &a, const V &b) { return binop(O_XOR, a, b); }
static void aesRound(V *s, const V *k, bool last) {       // s: 16 bytes column-major
    V t[16];
    for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) t[4 * c + r] = sboxV(s[4 * ((c + r) & 3) + r]);
    for (int c = 0; c < 4; c++) {
        if (last) { for (int r = 0; r < 4; r++) s[4 * c + r] = t[4 * c + r]; continue; }
        V *a = t + 4 * c;
        for (int r = 0; r < 4; r++) s[4 * c + r] = x8(x8(xtimeV(a[r]), x8(xtimeV(a[(r + 1) & 3]), a[(r + 1) & 3])), x8(a[(r + 2) & 3], a[(r + 3) & 3]));
    }
    for (int i = 0; i < 16; i++) s[i] = x8(s[i], k[i]);
}
static void toBytes(const V *v, unsigned lanes, unsigned w, V *out) {
    unsigned eb = w / 8; Cell c[64];
    for (unsigned l = 0; l < lanes; l++) { vToCells(v[l], c, eb, false); for (unsigned i = 0; i < eb; i++) out[l * eb + i] = cellsToV(c + i, 1, false); }
}
static void fromBytes(const V *b, unsigned lanes, unsigned w, V *out) {
    unsigned eb = w / 8; Cell c[64];
    for (unsigned l = 0; l < lanes; l++) { for (unsigned i = 0; i < eb; i++) vToCells(b[l * eb + i], c + i, 1, false); out[l] = cellsToV(c, eb, false); if (out[l].w != w && out[l].k != K_PTR) out[l] = vtrunc(out[l], w); }
}
static void intrinsic(Interp &I, const Ins &in, size_t base, V *dst) {
    unsigned w = in.w; auto A = [&](int o, unsigned l) { return I.val(base, o, l); };
    switch (in.align) {
    case I_FSHL: case I_FSHR: for (unsigned l = 0; l < in.lanes; l++) {
        V a = A(in.a, l), b = A(in.b, l), c = A(in.c, l);
        if (c.k != K_CONST) { dst[l] = opaque(w, taintOf(a) | taintOf(b) | taintOf(c)); continue; }
        unsigned s = (unsigned)(c.b % w); if (in.align == I_FSHR) s = (w - s) % w;
        bool r = in.align == I_FSHR;
        if (s == 0) { dst[l] = r ? b : a; continue; }
        dst[l] = binop(O_OR, binop(O_SHL, a, vconst(w, s)), binop(O_LSHR, b, vconst(w, w - s))); } break;
    case I_BSWAP: for (unsigned l = 0; l < in.lanes; l++) { V a = A(in.a, l); std::vector<Bit> b(w), o(w); bitsOf(a, b.data()); for (unsigned i = 0; i < w / 8; i++) for (int k = 0; k < 8; k++) o[i * 8 + k] = b[(w / 8 - 1 - i) * 8 + k]; dst[l] = mkBits(o.data(), w); } break;
    case I_BITREVERSE: for (unsigned l = 0; l < in.lanes; l++) { V a = A(in.a, l); std::vector<Bit> b(w), o(w); bitsOf(a, b.data()); for (unsigned i = 0; i < w; i++) o[i] = b[w - 1 - i]; dst[l] = mkBits(o.data(), w); } break;
    case I_UMIN: case I_UMAX: case I_SMIN: case I_SMAX: for (unsigned l = 0; l < in.lanes; l++) {
        V a = A(in.a, l), b = A(in.b, l); Op o = in.align == I_UMIN ? O_ULT : in.align == I_UMAX ? O_UGT : in.align == I_SMIN ? O_SLT : O_SGT;
        dst[l] = vselect(binop(o, a, b), a, b); } break;
    case I_ABS: for (unsigned l = 0; l < in.lanes; l++) { V a = A(in.a, l); dst[l] = vselect(binop(O_SLT, a, vconst(w, 0)), binop(O_SUB, vconst(w, 0), a), a); } break;
    case I_USUBSAT: for (unsigned l = 0; l < in.lanes; l++) { V a = A(in.a, l), b = A(in.b, l); dst[l] = vselect(binop(O_UGE, a, b), binop(O_SUB, a, b), vconst(w, 0)); } break;
    case I_UADDSAT: for (unsigned l = 0; l < in.lanes; l++) { V a = A(in.a, l), b = A(in.b, l); V s = binop(O_ADD, a, b); dst[l] = vselect(binop(O_ULT, s, a), vconst(w, maskw(w)), s); } break;
    case I_REDADD: case I_REDOR: case I_REDAND: case I_REDXOR: { V r = A(in.a, 0); Op o = in.align == I_REDADD ? O_ADD : in.align == I_REDOR ? O_OR : in.align == I_REDAND ? O_AND : O_XOR; for (unsigned l = 1; l < in.aux; l++) r = binop(o, r, A(in.a, l)); dst[0] = r; break; }
    case I_UMULO: case I_UADDO: case I_USUBO: case I_SADDO: case I_SSUBO: case I_SMULO: {
        V a = A(in.a, 0), b = A(in.b, 0); bool add = in.align == I_UADDO || in.align == I_SADDO, mul = in.align == I_UMULO || in.align == I_SMULO, sg = in.align >= I_SADDO && in.align <= I_SSUBO;
        sg = in.align == I_SADDO || in.align == I_SSUBO || in.align == I_SMULO;
        dst[0] = binop(mul ? O_MUL : add ? O_ADD : O_SUB, a, b);
        if (a.k == K_CONST && b.k == K_CONST && in.w2 <= 64) {
            __int128 x = sg ? (__int128)sx(a.b, in.w2) : (__int128)a.b, y = sg ? (__int128)sx(b.b, in.w2) : (__int128)b.b, r = mul ? x * y : add ? x + y : x - y;
            __int128 back = sg ? (__int128)sx((u64)r & maskw(in.w2), in.w2) : (__int128)((u64)r & maskw(in.w2)); dst[1] = vconst(1, back != r);
        } else dst[1] = opaque(1, taintOf(a) | taintOf(b));
        break; }
    case I_AESENC: case I_AESENCLAST: { V s[16], k[16], x[2], y[2]; for (unsigned l = 0; l < 2; l++) { x[l] = A(in.a, l); y[l] = A(in.b, l); } toBytes(x, 2, 64, s); toBytes(y, 2, 64, k); aesRound(s, k, in.align == I_AESENCLAST); fromBytes(s, 2, 64, dst); break; }
    case I_AESKEYGEN: {
        V s[16], o[16], x[2]; for (unsigned l = 0; l < 2; l++) x[l] = A(in.a, l); toBytes(x, 2, 64, s); u64 rc = A(in.b, 0).b;
        for (int h = 0; h < 2; h++) { V w1[4]; for (int i = 0; i < 4; i++) w1[i] = sboxV(s[4 + 8 * h + i]); for (int i = 0; i < 4; i++) { o[8 * h + i] = w1[i]; o[8 * h + 4 + i] = w1[(i + 1) & 3]; } o[8 * h + 4] = x8(o[8 * h + 4], vconst(8, rc)); }
        fromBytes(o, 2, 64, dst); break; }
    case I_PSHUFB: for (unsigned l = 0; l < in.lanes; l++) { V c = A(in.b, l); if (c.k != K_CONST) { dst[l] = opaque(8, taintOf(c) | taintOf(A(in.a, l))); continue; } dst[l] = c.b & 0x80 ? vconst(8, 0) : A(in.a, (l & ~15u) + (unsigned)(c.b & 15)); } break;
    case I_PMADDWD: for (unsigned l = 0; l < in.lanes; l++) { auto M = [&](unsigned j) { return binop(O_MUL, vsext(A(in.a, j), 32), vsext(A(in.b, j), 32)); }; dst[l] = binop(O_ADD, M(2 * l), M(2 * l + 1)); } break;
    case I_PSLL: case I_PSRL: case I_PSRA: { V c = A(in.b, 0); for (unsigned l = 0; l < in.lanes; l++) { if (c.k != K_CONST) { dst[l] = opaque(w, taintOf(A(in.a, l))); continue; } u64 s = c.b; if (s >= w) { if (in.align != I_PSRA) { dst[l] = vconst(w, 0); continue; } s = w - 1; } dst[l] = binop(in.align == I_PSLL ? O_SHL : in.align == I_PSRL ? O_LSHR : O_ASHR, A(in.a, l), vconst(w, s)); } break; }
    case I_CTPOP: case I_CTLZ: case I_CTTZ: for (unsigned l = 0; l < in.lanes; l++) { V a = A(in.a, l); if (a.k == K_CONST) { u64 x = a.b; u64 r = in.align == I_CTPOP ? (u64)__builtin_popcountll(x) : in.align == I_CTTZ ? (x ? (u64)__builtin_ctzll(x) : w) : (x ? (u64)__builtin_clzll(x) - (64 - w) : w); dst[l] = vconst(w, r); } else dst[l] = opaque(w, taintOf(a)); } break;
    default: I.report("unsup", "intrinsic not modelled", in.loc); for (unsigned l = 0; l < in.lanes; l++) dst[l] = opaque(w, 0);
    }
}

int Interp::callByName(const std::string &name, std::vector<V> args, V &ret, bool &found) {
    auto it = m.fnByName.find(name);
    found = it != m.fnByName.end() && !m.funcs[it->second].decl;
    if (!found) return RUN_STUCK;
    std::vector<V> r; int rc = call(it->second, args.data(), r, 0);
    if (!r.empty()) ret = r[0];
    if (rc == RUN_OK) for (auto &g : regs) if (g.kind == R_HEAP && g.alive) report("leak", g.name + " (" + std::to_string(g.size) + " bytes) is still allocated when " + name + " returns", 0);
    return rc;
}
int Interp::call(int fn, V *args, std::vector<V> &ret, u32 loc) {
    Func &f = m.funcs[fn];
    if (depth > 200) { report("undecided", "recursion too deep", loc); return RUN_STUCK; }
    reached[fn] = 1; nFrames++;
    Frame fr; fr.f = &f; fr.base = sp;
    if (stack.size() < sp + (size_t)f.nregs + 16) stack.resize((sp + (size_t)f.nregs + 16) * 2);
    int slot = 0;
    for (size_t i = 0; i < f.argSlot.size(); i++) for (unsigned l = 0; l < f.argLanes[i]; l++) stack[sp + (size_t)slot] = args[slot], slot++;
    for (int i = slot; i < f.nregs; i++) stack[sp + (size_t)i] = vconst(64, 0);
    sp += (size_t)f.nregs; depth++; fnStack.push_back(f.name);
    u64 stk = stackNow; int rc = runFrom(fr, 0, -1, ret); stackNow = stk;
    depth--; fnStack.pop_back(); sp = fr.base;
    frameExit(fr);
    return rc;
}
static bool tooLarge() { struct rusage ru; getrusage(RUSAGE_SELF, &ru); return ru.ru_maxrss / 1024 > 2600 || ru.ru_utime.tv_sec > 240; }
int Interp::forkJoin(Frame &fr, u32 blk, const V &cond, u32 tb, u32 te, u32 fb, u32 fe, std::vector<V> &ret, u32 &next, int outerStop) {
    nForks++;
    if (getenv("VFORK")) fprintf(stderr, "fork %s %s depth %d cond %s taint %d\n", where(curLoc).c_str(), fr.f->name.c_str(), forkDepth, showV(cond).c_str(), (int)taintOf(cond));
    if ((nForks & 255) == 255 && tooLarge()) { report("undecided", "too many data-dependent branches (the joined values outgrow memory or time)", curLoc); return RUN_STUCK; }
    if (forkDepth > 40 || nForks > 200000) { report("undecided", "too many data-dependent branches (data-dependent loop?)", curLoc); return RUN_STUCK; }
    (void)outerStop;
    int stop = fr.f->ipdom[blk];
    size_t nr = (size_t)fr.f->nregs; std::vector<V> save(stack.begin() + (long)fr.base, stack.begin() + (long)(fr.base + nr));
    bool oj = journaling; std::vector<JEnt> outer; outer.swap(journal); journaling = true; forkDepth++;
    u64 rp = randPos; int rcalls = randCalls;
    auto apply = [&](u32 e) { Edge &E = m.edges[e]; std::vector<V> t; for (auto &c : E.copies) t.push_back(val(fr.base, c.second)); for (size_t i = 0; i < E.copies.size(); i++) stack[fr.base + (size_t)E.copies[i].first] = t[i]; };
    struct Side { int rc; std::vector<V> regs, ret; std::map<std::pair<u32, u64>, Cell> mem; std::map<std::pair<u32, u64>, u32> wr; std::map<std::pair<u32, u64>, u8> fl; u64 rp; int rcalls; };
    Side S[2]; u32 tgt[2] = {tb, fb}, ed[2] = {te, fe};
    std::map<std::pair<u32, u64>, Cell> orig; std::vector<std::pair<u32, u64>> order;
    for (int s = 0; s < 2; s++) {
        std::copy(save.begin(), save.end(), stack.begin() + (long)fr.base); randPos = rp; randCalls = rcalls;
        journal.clear(); apply(ed[s]);
        S[s].rc = (int)tgt[s] == stop ? (int)RUN_STOPBLK : runFrom(fr, tgt[s], stop, S[s].ret);
        S[s].regs.assign(stack.begin() + (long)fr.base, stack.begin() + (long)(fr.base + nr)); S[s].rp = randPos; S[s].rcalls = randCalls;
        for (auto &j : journal) if (regs[j.r].c) { S[s].mem[{j.r, j.off}] = regs[j.r].c[j.off]; S[s].wr[{j.r, j.off}] = regs[j.r].wr[j.off]; if (regs[j.r].fl[j.off]) S[s].fl[{j.r, j.off}] = regs[j.r].fl[j.off]; }
        for (size_t i = journal.size(); i-- > 0;) { auto &j = journal[i]; if (regs[j.r].c) { regs[j.r].c[j.off] = j.c; regs[j.r].wr[j.off] = j.wr; regs[j.r].fl[j.off] = j.fl; } if (!orig.count({j.r, j.off})) order.push_back({j.r, j.off}); orig[{j.r, j.off}] = j.c; }
    }
    forkDepth--; journal.clear(); journal.swap(outer); journaling = oj;
    int r0 = S[0].rc, r1 = S[1].rc;
    if (r0 == RUN_STUCK || r1 == RUN_STUCK) return RUN_STUCK;
    auto commit = [&](u32 r, u64 off, Cell c, u32 wr) { if (journaling) journal.push_back({r, off, regs[r].c[off], regs[r].wr[off], regs[r].fl[off]}); regs[r].c[off] = c; regs[r].wr[off] = wr; };
    if (r0 == RUN_ABORT && r1 == RUN_ABORT) return RUN_ABORT;
    if (r0 == RUN_ABORT || r1 == RUN_ABORT) {
        int k = r0 == RUN_ABORT ? 1 : 0; report("condabort", "a data-dependent condition decides whether the operation ends abnormally", curLoc);
        for (auto &e : S[k].mem) commit(e.first.first, e.first.second, e.second, S[k].wr[e.first]);
        std::copy(S[k].regs.begin(), S[k].regs.end(), stack.begin() + (long)fr.base); ret = S[k].ret; next = (u32)stop; randPos = S[k].rp; randCalls = S[k].rcalls; return S[k].rc;
    }
    if (r0 != r1) { report("undecided", "one side of a data-dependent branch returns and the other does not", curLoc); return RUN_STUCK; }
    if (S[0].rp != S[1].rp) report("undecided", "the amount of randomness drawn is data dependent", curLoc);
    // merge memory; bytes are grouped so that whole stored words are selected as words
    std::sort(order.begin(), order.end());
    auto get = [&](int s, std::pair<u32, u64> k, u32 &wr) { auto it = S[s].mem.find(k); if (it != S[s].mem.end()) { wr = S[s].wr[k]; return it->second; } wr = regs[k.first].wr[k.second]; return orig[k]; };
    for (size_t i = 0; i < order.size();) {
        auto k = order[i]; if (!regs[k.first].c) { i++; continue; }
        size_t n = 1;
        for (size_t w : {8u, 4u, 2u}) {
            if (i + w > order.size()) continue; bool ok = true;
            for (size_t j = 1; j < w && ok; j++) if (order[i + j].first != k.first || order[i + j].second != k.second + j) ok = false;
            if (!ok) continue;
            bool whole = true; u32 dw; for (int s = 0; s < 2 && whole; s++) { Cell c0 = get(s, order[i], dw); for (size_t j = 0; j < w; j++) { Cell c = get(s, order[i + j], dw); if (c.id == CELL_CONST && c0.id == CELL_CONST) continue; if (c.id != c0.id || c.sub != c0.sub + j) { whole = false; break; } } }
            if (whole) { n = w; break; }
        }
        Cell a[8], b[8], o[8]; u32 wa = 0, wb = 0; bool same = true;
        for (size_t j = 0; j < n; j++) { a[j] = get(0, order[i + j], wa); b[j] = get(1, order[i + j], wb); if (a[j].id != b[j].id || a[j].sub != b[j].sub) same = false; }
        if (same) { for (size_t j = 0; j < n; j++) commit(k.first, k.second + j, a[j], wa); }
        else {
            V va = cellsToV(a, (unsigned)n, m.be), vb = cellsToV(b, (unsigned)n, m.be);
            // a join of very many words keeps only the identity of each selected word
            V r = order.size() > 6000 && cond.k == K_NODE && va.k <= K_NODE && vb.k <= K_NODE && va.k != K_PTR && vb.k != K_PTR
                ? opaqueH((unsigned)(8 * n), h2(0x5e1ec7, widOf(cond), h2(0x5e1ec8, widOf(va), widOf(vb))), (u8)(taintOf(cond) | taintOf(va) | taintOf(vb)))
                : vselect(cond, va, vb);
            vToCells(r, o, (unsigned)n, m.be);
            for (size_t j = 0; j < n; j++) commit(k.first, k.second + j, o[j], wa ? wa : wb);
            if (eraseCheck && secretSet) for (size_t j = 0; j < n; j++) if (secretByte(a[j]) || secretByte(b[j])) condSecret.insert(byteId(o[j]));
        }
        for (size_t j = 0; j < n; j++) if (S[0].fl.count(order[i + j]) || S[1].fl.count(order[i + j])) regs[k.first].fl[k.second + j] = 1;
        i += n;
    }
    for (size_t i = 0; i < nr; i++) {
        V a = S[0].regs[i], b = S[1].regs[i];
        if (a.k == b.k && a.w == b.w && a.a == b.a && a.b == b.b && a.ext == b.ext) { stack[fr.base + i] = a; continue; }
        if (a.w != b.w) { stack[fr.base + i] = a; continue; }
        stack[fr.base + i] = vselect(cond, a, b);
    }
    if (r0 == RUN_OK) { ret.clear(); for (size_t i = 0; i < S[0].ret.size(); i++) ret.push_back(vselect(cond, S[0].ret[i], S[1].ret[i])); }
    next = (u32)stop;
    return r0;
}
// The rest of the current function is analysed once more with the failure value as the result of the call just made; the effects are undone.
void Interp::probe(Frame &fr, u32 blk, u32 pc, const Ins &in, u64 badv) {
    size_t top = sp; std::vector<V> save(stack.begin() + (long)fr.base, stack.begin() + (long)top);
    bool oj = journaling, og = noGC; std::vector<JEnt> outer; outer.swap(journal); journaling = true; noGC = true; forkDepth++;
    auto oe = evp; int ol = evpLive, oev = evpEvents, orc = randCalls; size_t onl = evpLocs.size(); auto of = findings; auto ofi = fidx; auto oa = fr.allocas; auto ope = pendingErase; u64 orp = randPos, osl = stepLimit; std::vector<u8> alive; for (auto &r : regs) alive.push_back(r.alive);
    evpProbe = false; evpFailed = true; stepLimit = steps + 4000000; if (in.dst >= 0) stack[fr.base + (size_t)in.dst] = vconst(in.w ? in.w : 64, badv);
    std::vector<V> rv; int rc = runFrom(fr, blk, -1, rv, pc + 1);
    std::string out = rc == RUN_ABORT ? "aborted" : rc == RUN_OK ? "returned " + (rv.empty() ? std::string("void") : showV(rv[0])) : "ran on";
    for (size_t i = journal.size(); i-- > 0;) { auto &j = journal[i]; if (regs[j.r].c) { regs[j.r].c[j.off] = j.c; regs[j.r].wr[j.off] = j.wr; regs[j.r].fl[j.off] = j.fl; } }
    journal.clear(); journal.swap(outer); journaling = oj; noGC = og; forkDepth--;
    for (size_t i = 0; i < alive.size(); i++) regs[i].alive = alive[i];
    evp = oe; evpLive = ol; evpEvents = oev; randCalls = orc; evpLocs.resize(onl); findings = of; fidx = ofi; fr.allocas = oa; pendingErase = ope; randPos = orp; stepLimit = osl; evpProbe = true; evpFailed = false;
    std::copy(save.begin(), save.end(), stack.begin() + (long)fr.base); sp = top;
    probes++; if (out == "aborted") probesAborted++; else { auto k = std::make_pair(in.loc, out); auto it = probeEscapes.find(k); if (it == probeEscapes.end()) probeEscapes[k] = {evpEvents - 1, evpEvents - 1, 1, badv}; else { it->second.last = evpEvents - 1; it->second.count++; } }
}
// signed interval arithmetic on the operands of each operation; an operation whose overflow is undefined must not overflow
typedef __int128 i128;
static bool sRange(const V &v, i128 &lo, i128 &hi, bool deep) {
    if (v.w > 64) return false;
    if (v.k == K_CONST) { lo = hi = sx(v.b, v.w); return true; }
    if (v.k != K_NODE) return false;
    unsigned nw = nodes[v.a].w; if (nw > v.w || nw == 0) nw = v.w; if (nw > 64) return false;
    lo = -((i128)1 << (nw - 1)); hi = -lo - 1;
    if (v.a < rangeOf.size() && rangeOf[v.a].ok && nodes[v.a].w == nw) { lo = rangeOf[v.a].lo; hi = rangeOf[v.a].hi; }
    i64 ul, uh; if (deep && nodes[v.a].w == nw && uniRange(v.a, ul, uh)) { if (ul > lo) lo = ul; if (uh < hi) hi = uh; }
    if (nw < v.w && v.ext == X_Z && lo < 0) { lo = 0; hi = ((i128)1 << nw) - 1; }
    if (deep) { std::vector<Bit> b(v.w); bitsOf(v, b.data()); int k = v.w; while (k > 0 && bisconst(b[(size_t)k - 1]) && !b[(size_t)k - 1].c) k--; if (k < (int)v.w) { if (lo < 0) lo = 0; i128 h = ((i128)1 << k) - 1; if (hi > h) hi = h; } }
    return true;
}
void Interp::arith(const Ins &in, const V &x, const V &y, const V &r) {
    unsigned w = in.w; if (w > 64) return;
    bool shift = in.sub == O_SHL || in.sub == O_LSHR || in.sub == O_ASHR, divi = in.sub >= O_UDIV && in.sub <= O_SREM;
    if (x.k == K_CONST && y.k == K_CONST && !in.align && !shift && !divi) return;
    i128 a, b, c, d, mx = ((i128)1 << (w - 1)) - 1, mn = -mx - 1;
    if (in.align || shift || divi) nArith++;
    if (arithBad.count(in.loc)) return;
    for (int deep = 0; deep < 2; deep++) {
        if (!sRange(x, a, b, deep) || !sRange(y, c, d, deep)) { if (in.align) { report("arith", "the range of an operand is not established", in.loc); arithBad.insert(in.loc); } return; }
        i128 lo = mn, hi = mx; bool known = true; std::string bad;
        switch (in.sub) {
        case O_ADD: lo = a + c; hi = b + d; break;
        case O_SUB: lo = a - d; hi = b - c; break;
        case O_MUL: { i128 p[4] = {a * c, a * d, b * c, b * d}; lo = std::min(std::min(p[0], p[1]), std::min(p[2], p[3])); hi = std::max(std::max(p[0], p[1]), std::max(p[2], p[3])); break; }
        case O_AND: if (a >= 0 && c >= 0) { lo = 0; hi = std::min(b, d); } else if (a >= 0) { lo = 0; hi = b; } else if (c >= 0) { lo = 0; hi = d; } else { i128 k = 1; while (a < -k || b >= k || c < -k || d >= k) k <<= 1; lo = -k; hi = k - 1; } break;
        case O_OR: case O_XOR: if (a >= 0 && c >= 0) { i128 t = std::max(b, d), k = 1; while (k <= t) k <<= 1; lo = 0; hi = k - 1; } else { i128 k = 1; while (a < -k || b >= k || c < -k || d >= k) k <<= 1; lo = -k; hi = k - 1; } break;
        case O_SHL: if (c < 0 || d >= (i128)w) bad = "shift by an amount that may reach the width"; else if (a >= 0) { lo = 0; hi = b << (int)d; } else known = false; break;
        case O_LSHR: if (c < 0 || d >= (i128)w) bad = "shift by an amount that may reach the width"; else if (a >= 0) { lo = 0; hi = b >> (int)c; } else known = false; break;
        case O_ASHR: if (c < 0 || d >= (i128)w) bad = "shift by an amount that may reach the width"; else { lo = std::min(a >> (int)c, a >> (int)d); hi = std::max(b >> (int)c, b >> (int)d); } break;
        case O_UDIV: case O_SDIV: if (c <= 0 && d >= 0) bad = "division by a value that may be zero"; else if (in.sub == O_SDIV && a == mn && c <= -1 && d >= -1) bad = "division may overflow"; else if (a >= 0 && c > 0) { lo = a / d; hi = b / c; } else known = false; break;
        case O_UREM: case O_SREM: if (c <= 0 && d >= 0) bad = "division by a value that may be zero"; else if (a >= 0 && c > 0) { lo = 0; hi = std::min(b, d - 1); } else known = false; break;
        default: known = false;
        }
        if ((in.align & 1) && bad.empty() && (lo < mn || hi > mx)) bad = "signed overflow";
        if ((in.align & 2) && !(in.align & 1) && bad.empty() && a >= 0 && c >= 0 && (lo < 0 || hi > 2 * mx + 1)) bad = "unsigned overflow declared impossible";
        if ((in.align & 4) && bad.empty() && (a < 0 || (b << (int)d) > mx)) bad = "left shift of a signed value past its type";
        if (bad.size() && !deep) continue;
        if (bad.size()) {
            arithBad.insert(in.loc);
            auto sh = [](i128 v) { char t[48]; snprintf(t, sizeof t, "%lld", (long long)v); return std::string(t); };
            report("arith", bad + ": operands in [" + sh(a) + ", " + sh(b) + "] and [" + sh(c) + ", " + sh(d) + "], " + std::to_string(w) + " bits", in.loc); return;
        }
        if (known && lo >= mn && hi <= mx && r.k == K_NODE && !r.ext && nodes[r.a].w == w) { rangeReset(r.a); rangeOf[r.a] = Rng{(i64)lo, (i64)hi, true}; }
        return;
    }
}
int Interp::runFrom(Frame &fr, u32 blk, int stopBlk, std::vector<V> &ret, u32 startPc) {
    Func &f = *fr.f; const size_t base = fr.base;
    V tmp[512];
    for (;;) {
        if ((int)blk == stopBlk) return RUN_STOPBLK;
        const Block &B = f.blocks[blk];
        for (u32 pc = startPc != ~0u ? startPc : B.first, e = B.first + B.count; pc < e; pc++) {
            startPc = ~0u;
            const Ins &in = f.code[pc];
            V *R = &stack[base];
            steps++;
            if (steps > stepLimit) { report("undecided", "analysis budget exhausted (non-terminating loop?)", in.loc); return RUN_STUCK; }
            curLoc = in.loc;
            switch (in.op) {
            case B_BIN: {
                if (in.lanes == 1) {
                    const V &x = val(base, in.a), &y = val(base, in.b);
                    if (x.k == K_CONST && y.k == K_CONST && in.w <= 64 && in.sub <= O_SHL) {
                        u64 a = x.b, b = y.b, r;
                        switch (in.sub) { case O_ADD: r = a + b; break; case O_SUB: r = a - b; break; case O_MUL: r = a * b; break; case O_AND: r = a & b; break; case O_OR: r = a | b; break; case O_XOR: r = a ^ b; break; default: if (b >= in.w) { report("uninit", "shift by at least the width of the operand", in.loc); r = 0; } else r = a << b; }
                        if (rangeOn) { V q = vconst(in.w, r); arith(in, x, y, q); }
                        R[in.dst] = vconst(in.w, r); break;
                    }
                    if (isP(x) || isP(y)) { R[in.dst] = ptrBin(*this, in.sub, x, y, in.w, in.loc); break; }
                    if (in.sub >= O_UDIV && in.sub <= O_SREM) {
                        if (y.k == K_CONST && y.b == 0) report("undecided", "division by zero", in.loc);
                        u8 ta = taintOf(x) | taintOf(y);
                        if (ctCheck && (ta & T_SECRET) && !(ctExempt && ctExempt(funcOf(in.loc))) && !(y.k == K_CONST && y.b && (y.b & (y.b - 1)) == 0)) report("ct", "division with a secret operand", in.loc);
                    }
                    V r = binop((Op)in.sub, x, y); if (rangeOn) arith(in, x, y, r);
                    R[in.dst] = r;
                    break;
                }
                for (unsigned l = 0; l < in.lanes; l++) tmp[l] = binop((Op)in.sub, val(base, in.a, l), val(base, in.b, l));
                memcpy(R + in.dst, tmp, sizeof(V) * in.lanes); break; }
            case B_ICMP:
                for (unsigned l = 0; l < in.lanes; l++) {
                    const V &x = val(base, in.a, l), &y = val(base, in.b, l);
                    if (isP(x) || isP(y)) { if (taintOf(x) & T_UNINIT || taintOf(y) & T_UNINIT) report("uninit", "comparison with uninitialised pointer", in.loc); tmp[l] = ptrBin(*this, in.sub, x, y, 1, in.loc); } else tmp[l] = binop((Op)in.sub, x, y);
                }
                memcpy(R + in.dst, tmp, sizeof(V) * in.lanes); break;
            case B_TRUNC: for (unsigned l = 0; l < in.lanes; l++) { V x = val(base, in.a, l); tmp[l] = isP(x) ? opaque(in.w, 0) : vtrunc(x, in.w); } memcpy(R + in.dst, tmp, sizeof(V) * in.lanes); break;
            case B_ZEXT: for (unsigned l = 0; l < in.lanes; l++) tmp[l] = vzext(val(base, in.a, l), in.w); memcpy(R + in.dst, tmp, sizeof(V) * in.lanes); break;
            case B_SEXT: for (unsigned l = 0; l < in.lanes; l++) tmp[l] = vsext(val(base, in.a, l), in.w); memcpy(R + in.dst, tmp, sizeof(V) * in.lanes); break;
            case B_MOVE: case B_PTRTOINT: case B_INTTOPTR:
                for (unsigned l = 0; l < in.lanes; l++) tmp[l] = val(base, in.a, l);
                if (in.op == B_PTRTOINT && in.w < 64) for (unsigned l = 0; l < in.lanes; l++) tmp[l] = isP(tmp[l]) ? opaque(in.w, 0) : vtrunc(tmp[l], in.w);
                memcpy(R + in.dst, tmp, sizeof(V) * in.lanes); break;
            case B_BITCASTV: {
                unsigned sl = in.aux, sw = in.w2, dl = in.lanes, dw = in.w;
                if (sw % 8 || dw % 8) {
                    std::vector<Bit> b(sl * sw); for (unsigned l = 0; l < sl; l++) bitsOf(val(base, in.a, l), b.data() + l * sw);
                    for (unsigned l = 0; l < dl; l++) tmp[l] = mkBits(b.data() + l * dw, dw);
                } else {
                    Cell c[512]; for (unsigned l = 0; l < sl; l++) vToCells(val(base, in.a, l), c + l * sw / 8, sw / 8, m.be);
                    for (unsigned l = 0; l < dl; l++) { tmp[l] = cellsToV(c + l * dw / 8, dw / 8, m.be); if (tmp[l].w != dw && tmp[l].k != K_PTR) tmp[l] = vtrunc(tmp[l], dw); }
                }
                memcpy(R + in.dst, tmp, sizeof(V) * dl); break; }
            case B_SELECT:
                for (unsigned l = 0; l < in.lanes; l++) {
                    const V &c = val(base, in.a, in.sub ? l : 0);
                    if (c.k != K_CONST && taintOf(c) & T_UNINIT) report("uninit", "selection depends on uninitialised data", in.loc);
                    const V &t = val(base, in.b, l), &e2 = val(base, in.c, l);
                    if (c.k != K_CONST && (isP(t) || isP(e2))) { if (ctCheck && (taintOf(c) & T_SECRET)) report("ct", "address selected by secret data", in.loc); report("undecided", "pointer selected by data", in.loc); }
                    tmp[l] = vselect(c, t, e2);
                }
                memcpy(R + in.dst, tmp, sizeof(V) * in.lanes); break;
            case B_LOAD: { nLoads++; V p = val(base, in.a); V out[64]; if (in.lanes > 64) { report("unsup", "wide load", in.loc); return RUN_STUCK; } load(p, in.w, in.lanes, out, in); memcpy(&stack[base + in.dst], out, sizeof(V) * in.lanes); break; }
            case B_STORE: {
                nStores++; V p = val(base, in.a); Cell c[512]; unsigned eb = (in.w + 7) / 8;
                if ((u64)eb * in.lanes > 512) { report("unsup", "wide store", in.loc); return RUN_STUCK; }
                for (unsigned l = 0; l < in.lanes; l++) { V v = val(base, in.b, l); if (v.w != eb * 8 && v.k != K_PTR && v.k != K_PTRX) v = vzext(v, eb * 8); vToCells(v, c + (size_t)l * eb, eb, m.be); }
                if (p.k == K_PTRX) { PtrX &x = ptrx[p.a]; u8 ta = 0; for (auto &t : x.terms) ta |= taintOf(t.first); if ((ta & T_SECRET) && ctCheck) report("ct", "store address depends on secret data", in.loc); }
                if (!writeBytes(p, (u64)eb * in.lanes, c, in.align, in.loc, in.sub & 1, "write") && p.k != K_PTR) return RUN_STUCK;
                break; }
            case B_GEP: {
                const GepInfo &g = m.geps[in.aux]; V p = val(base, in.a);
                if (p.k == K_PTR) {
                    i64 off = (i64)p.b + g.off; bool abs = false;
                    for (auto &t : g.terms) { const V &ix = val(base, t.first); if (ix.k == K_CONST) off += sx(ix.b, ix.w) * t.second; else abs = true; }
                    if (!abs) { if (rangeOn && in.align && regs[p.a].kind != R_HANDLE && regs[p.a].kind != R_FUNC) { nArith++; if (off < -4096 || off > (i64)regs[p.a].size + 4096) report("arith", "a pointer into " + regs[p.a].name + " (" + std::to_string(regs[p.a].size) + " bytes) is moved to offset " + std::to_string(off), in.loc); } R[in.dst] = vptr(p.a, off); break; }
                    PtrX x; x.region = p.a; x.off = off; for (auto &t : g.terms) { V ix = val(base, t.first); if (ix.k != K_CONST) { if (ix.w < 64) ix = vsext(ix, 64); x.terms.push_back({ix, t.second}); } }
                    ptrx.push_back(x); R[in.dst] = V{K_PTRX, 0, 64, (u32)ptrx.size() - 1, 0}; break;
                }
                if (p.k == K_PTRX) {
                    PtrX x = ptrx[p.a]; x.off += g.off;
                    for (auto &t : g.terms) { V ix = val(base, t.first); if (ix.k == K_CONST) x.off += sx(ix.b, ix.w) * t.second; else { if (ix.w < 64) ix = vsext(ix, 64); x.terms.push_back({ix, t.second}); } }
                    ptrx.push_back(x); R[in.dst] = V{K_PTRX, 0, 64, (u32)ptrx.size() - 1, 0}; break;
                }
                if (p.k == K_CONST) { i64 off = (i64)p.b + g.off; bool abs = false; for (auto &t : g.terms) { const V &ix = val(base, t.first); if (ix.k == K_CONST) off += sx(ix.b, ix.w) * t.second; else abs = true; } R[in.dst] = abs ? opaque(64, 0) : vconst(64, (u64)off); break; }
                R[in.dst] = opaque(64, taintOf(p)); break; }
            case B_ALLOCA: {
                const AllocaInfo &ai = m.allocas[in.aux]; const V &n = val(base, in.a); bool ok; u64 cnt = lenArg(n, in.loc, ok, "a local array"); if (!ok) return RUN_STUCK;
                u64 sz = ai.size * cnt; u32 al = ai.align;
                u32 r = newRegion(ai.name.empty() ? "local" : ai.name, sz, al, R_STACK, fr.f->nameId); fr.allocas.push_back(r); stack[base + in.dst] = vptr(r, 0);
                u64 &had = fr.sizes[in.aux]; if (sz > had) { stackNow += sz - had; had = sz; if (stackNow > stackPeak) { stackPeak = stackNow; peakLoc = in.loc; peakAt = fr.f->name; } } break; }
            case B_EXTELT: { const V &ix = val(base, in.b); if (ix.k != K_CONST) { if (ctCheck && (taintOf(ix) & T_SECRET)) report("ct", "vector element index depends on secret data", in.loc); R[in.dst] = opaque(in.w, taintOf(ix)); } else if (ix.b >= in.lanes) { report("oob", "vector element index out of range", in.loc); R[in.dst] = opaque(in.w, T_UNINIT); } else { V t = val(base, in.a, (unsigned)ix.b); R[in.dst] = t; } break; }
            case B_INSELT: { const V &ix = val(base, in.c); for (unsigned l = 0; l < in.lanes; l++) tmp[l] = val(base, in.a, l); if (ix.k == K_CONST && ix.b < in.lanes) tmp[ix.b] = val(base, in.b); else { report("undecided", "vector element index unknown", in.loc); return RUN_STUCK; } memcpy(R + in.dst, tmp, sizeof(V) * in.lanes); break; }
            case B_SHUF: { const auto &mk = m.shufs[in.aux]; int n = in.w2; for (unsigned l = 0; l < in.lanes; l++) { int k = mk[l]; tmp[l] = k < 0 ? opaque(in.w, T_UNINIT) : k < n ? val(base, in.a, (unsigned)k) : val(base, in.b, (unsigned)(k - n)); } memcpy(R + in.dst, tmp, sizeof(V) * in.lanes); break; }
            case B_EXTVAL: for (unsigned l = 0; l < in.lanes; l++) tmp[l] = val(base, in.a, in.aux + l); memcpy(R + in.dst, tmp, sizeof(V) * in.lanes); break;
            case B_INSVAL: for (unsigned l = 0; l < in.lanes; l++) tmp[l] = val(base, in.a, l); for (unsigned l = 0; l < in.w2; l++) tmp[in.aux + l] = val(base, in.b, l); memcpy(R + in.dst, tmp, sizeof(V) * in.lanes); break;
            case B_INTR: intrinsic(*this, in, base, tmp); memcpy(&stack[base + in.dst], tmp, sizeof(V) * in.lanes); break;
            case B_MEMCPY: {
                bool ok; u64 n = lenArg(val(base, in.c), in.loc, ok, "a memory copy"); if (!ok) return RUN_STUCK;
                V d = val(base, in.a), s = val(base, in.b);
                if (n > (1u << 28)) { report("oob", "memory copy of " + std::to_string(n) + " bytes", in.loc); return RUN_STUCK; }
                if (n && in.w == 0 && d.k == K_PTR && s.k == K_PTR && d.a == s.a && d.b != s.b && ((d.b < s.b ? s.b - d.b : d.b - s.b) < n)) report("oob", "memcpy between overlapping ranges", in.loc);
                std::vector<Cell> c(n); nLoads++; nStores++; readBytes(s, n, c.data(), 1, in.loc, "read"); if (!writeBytes(d, n, c.data(), 1, in.loc, in.sub & 1, "write") && d.k != K_PTR && n) return RUN_STUCK; break; }
            case B_MEMSET: {
                bool ok; u64 n = lenArg(val(base, in.c), in.loc, ok, "a memory fill"); if (!ok) return RUN_STUCK;
                if (n > (1u << 28)) { report("oob", "memory fill of " + std::to_string(n) + " bytes", in.loc); return RUN_STUCK; }
                Cell b; vToCells(vtrunc(val(base, in.b), 8), &b, 1, m.be); std::vector<Cell> c(n, b); nStores++; V d = val(base, in.a); if (!writeBytes(d, n, c.data(), 1, in.loc, in.sub & 1, "write") && d.k != K_PTR && n) return RUN_STUCK; break; }
            case B_CALL: {
                const CallInfo &ci = m.calls[in.aux]; nCalls++;
                int fn = ci.fn;
                if (fn < 0) { const V &p = val(base, ci.fptr); if (p.k == K_PTR && regs[p.a].kind == R_FUNC) fn = (int)regs[p.a].aux; else { if (ctCheck && (taintOf(p) & T_SECRET)) report("ct", "call target depends on secret data", in.loc); report("undecided", "indirect call with unknown target", in.loc); return RUN_STUCK; } }
                std::vector<V> args; for (size_t i = 0; i < ci.args.size(); i++) for (unsigned l = 0; l < ci.argLanes[i]; l++) args.push_back(val(base, ci.args[i], l));
                int rc = -1; std::vector<V> rv; int ev0 = evpEvents;
                if (hookOf[fn]) { Call c; c.ci = &ci; c.args = args.data(); c.nargs = (int)args.size(); c.loc = in.loc; c.ret = vconst(ci.retW ? ci.retW : 1, 0); rc = (*hookOf[fn])(*this, c); if (rc != -1) { hooked.insert(m.funcs[fn].name); rv.assign(1, c.ret); } }
                if (rc == -1) {
                    if (m.funcs[fn].decl) { report("extcall", "call of external function " + m.funcs[fn].name + " which the analysis has no model for", in.loc); u8 ta = 0; for (auto &a : args) ta |= taintOf(a); if (ctCheck && (ta & T_SECRET)) report("ct", "secret value passed to external function " + m.funcs[fn].name, in.loc); for (unsigned l = 0; l < ci.retLanes; l++) rv.push_back(opaque(ci.retW, ta)); rc = RUN_OK; }
                    else rc = call(fn, args.data(), rv, in.loc);
                }
                curLoc = in.loc;
                if (rc != RUN_OK) return rc;
                if (in.dst >= 0) for (unsigned l = 0; l < in.lanes && l < rv.size(); l++) stack[base + (size_t)in.dst + l] = rv[l];
                if (evpProbe && evpEvents != ev0 && hookOf[fn]) { bool isPtr = rv[0].k == K_PTR; probe(fr, blk, pc, in, 0); if (!isPtr) probe(fr, blk, pc, in, 0xffffffffu); if (in.dst >= 0) stack[base + (size_t)in.dst] = rv[0]; }
                break; }
            case B_ASM: {
                const CallInfo &ci = m.calls[in.aux2]; const std::string &s = m.strs[in.aux];
                bool emptyAsm = s.size() && s[0] == '|';
                if (emptyAsm && in.dst >= 0 && ci.args.size() == 1) { for (unsigned l = 0; l < in.lanes; l++) tmp[l] = val(base, ci.args[0], l); for (unsigned l = 0; l < in.lanes; l++) R[in.dst + (int)l] = tmp[l]; }   // value barrier
                else if (!emptyAsm || in.dst >= 0) { report("extcall", "inline assembly", in.loc); if (in.dst >= 0) for (unsigned l = 0; l < in.lanes; l++) R[in.dst + (int)l] = opaque(in.w, T_DATA); }
                if (s.find("~{memory}") != std::string::npos) for (auto &r : regs) if (r.alive && r.fl && r.everSecret) memset(r.fl, 0, r.size);      // the buffers have escaped: stores before the barrier stay
                break; }
            case B_FENCE: break;
            case B_BR: {
                Edge &E = m.edges[in.aux2];
                if (E.copies.size() == 1) stack[base + (size_t)E.copies[0].first] = V(val(base, E.copies[0].second));
                else { size_t i = 0; for (auto &c : E.copies) tmp[i++] = val(base, c.second); i = 0; for (auto &c : E.copies) stack[base + (size_t)c.first] = tmp[i++]; }
                blk = in.aux; goto nextblk; }
            case B_CBR: {
                V c = val(base, in.a); nBranches++;
                u32 e2, t2;
                if (c.k == K_CONST) { e2 = c.b ? in.aux : in.aux2; t2 = (u32)(c.b ? in.b : in.c); }
                else {
                    u8 ta = taintOf(c);
                    if (ta & T_UNINIT) report("uninit", "branch depends on uninitialised data", in.loc);
                    if ((ta & T_SECRET) && ctCheck && !(ctExempt && ctExempt(funcOf(in.loc)))) report("ct", "branch depends on secret data", in.loc);
                    u32 nx = 0; int rc = forkJoin(fr, blk, c, (u32)in.b, in.aux, (u32)in.c, in.aux2, ret, nx, stopBlk);
                    if (rc == RUN_STOPBLK) { blk = nx; goto nextblk; }
                    return rc;
                }
                Edge &E = m.edges[e2];
                if (E.copies.size()) { size_t i = 0; for (auto &cp : E.copies) tmp[i++] = val(base, cp.second); i = 0; for (auto &cp : E.copies) stack[base + (size_t)cp.first] = tmp[i++]; }
                blk = t2; goto nextblk; }
            case B_SWITCH: {
                const SwitchInfo &s = m.switches[in.aux]; V c = val(base, s.cond); nBranches++;
                if (c.k != K_CONST) { u8 ta = taintOf(c); if (ta & T_UNINIT) report("uninit", "switch depends on uninitialised data", in.loc); if ((ta & T_SECRET) && ctCheck) report("ct", "switch depends on secret data", in.loc); report("undecided", "data-dependent switch", in.loc); return RUN_STUCK; }
                u32 t = s.def, e2 = s.edgeIdx[0]; for (size_t i = 0; i < s.cases.size(); i++) if (s.cases[i].first == c.b) { t = s.cases[i].second; e2 = s.edgeIdx[i + 1]; break; }
                Edge &E = m.edges[e2]; size_t i = 0; for (auto &cp : E.copies) tmp[i++] = val(base, cp.second); i = 0; for (auto &cp : E.copies) stack[base + (size_t)cp.first] = tmp[i++];
                blk = t; goto nextblk; }
            case B_RET: ret.clear(); for (unsigned l = 0; l < in.lanes; l++) ret.push_back(val(base, in.a, l)); return RUN_OK;
            case B_UNREACH: return RUN_ABORT;
            case B_UNSUP: default: report("unsup", "construct not modelled: " + (in.aux < m.strs.size() ? m.strs[in.aux] : std::string("?")), in.loc); return RUN_STUCK;
            }
        }
        report("unsup", "block without terminator", curLoc); return RUN_STUCK;
    nextblk:
        if (forkDepth == 0 && !noGC && polyLive() > lastGC + 2000000) gcRoots();
    }
}
