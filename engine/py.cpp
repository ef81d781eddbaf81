// Abstract interpretation of the Python reference implementation in the value domain of dom.hpp.
// Input: the resolved syntax tree written by vlib/pyast.py. Integers are concrete (lengths, indices, parameters) or abstract
// (functions of the input bytes); a branch on an abstract condition analyses both sides and joins their effects.
#include "spec.hpp"
#include <chrono>
#include <cmath>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/resource.h>
#include <unordered_set>
extern std::function<void(std::function<void(u32)>)> extraRoots;
namespace {
typedef __int128 i128;
std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) r += ' '; else r += c; } return r; }
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// ------------------------------------------------------------ tree
struct J { char t = 'n'; std::string s; double d = 0; std::vector<J> a; };
struct JP { const std::string &x; size_t p = 0; JP(const std::string &s) : x(s) {}
    void ws() { while (p < x.size() && (x[p] == ' ' || x[p] == '\n' || x[p] == ',' || x[p] == ':')) p++; }
    void utf(std::string &o, unsigned c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
    J val() { ws(); J j; char c = x[p];
        if (c == '[') { p++; j.t = 'l'; ws(); while (x[p] != ']') { j.a.push_back(val()); ws(); } p++; return j; }
        if (c == '"') { p++; j.t = 's'; while (x[p] != '"') { if (x[p] == '\\') { p++; char e = x[p++]; if (e == 'n') j.s += '\n'; else if (e == 't') j.s += '\t'; else if (e == 'r') j.s += '\r'; else if (e == 'b') j.s += '\b'; else if (e == 'f') j.s += '\f'; else if (e == 'u') { utf(j.s, (unsigned)strtoul(x.substr(p, 4).c_str(), nullptr, 16)); p += 4; } else j.s += e; } else j.s += x[p++]; } p++; return j; }
        if (c == 'n') { p += 4; return j; } if (c == 't') { p += 4; j.t = 'd'; j.d = 1; return j; } if (c == 'f') { p += 5; j.t = 'd'; return j; }
        size_t q = p; while (q < x.size() && (isdigit((u8)x[q]) || strchr("+-.eE", x[q]))) q++; j.t = 'd'; j.d = strtod(x.substr(p, q - p).c_str(), nullptr); p = q; return j; } };
enum NKind : u8 { E_NONE, E_BOOL, E_INT, E_FLOAT, E_STR, E_BYTES, E_NAME, E_BIN, E_UN, E_AND, E_OR, E_CMP, E_IFEXP, E_ATTR, E_SLICE, E_SUB, E_CALL, E_STAR, E_TUPLE, E_LIST, E_DICT, E_LISTCOMP, E_DICTCOMP, E_FUNC, E_JOINED, E_WALRUS, E_YIELD,
    S_EXPR, S_ASSIGN, S_AUG, S_FOR, S_WHILE, S_IF, S_RETURN, S_BREAK, S_CONTINUE, S_ASSERT, S_RAISE, S_DEF, S_CLASS, S_IMPORT, S_FROM, S_TRY, S_WITH, S_BLOCK, S_BRKIF };
enum BinK : u8 { P_ADD, P_SUB, P_MUL, P_DIV, P_FDIV, P_MOD, P_POW, P_SHL, P_SHR, P_AND, P_OR, P_XOR };
enum CmpK : u8 { C_EQ, C_NE, C_LT, C_LE, C_GT, C_GE, C_IS, C_ISNOT, C_IN, C_NOTIN };
struct Nd { NKind k; int line = 0; u8 op = 0; char sc = 0; int depth = 0, slot = 0; i64 i = 0; double d = 0; std::string s; std::vector<Nd *> a, b, c; std::vector<u8> ops; std::vector<std::string> names; int n1 = 0, n2 = 0, n3 = 0; };
// ------------------------------------------------------------ values
enum T : u8 { T_NONE, T_BOOL, T_INT, T_FLOAT, T_AINT, T_OBJ, T_UNDEF };
enum OK : u8 { O_STR, O_BYTES, O_BARR, O_LIST, O_TUPLE, O_RANGE, O_FUNC, O_BOUND, O_CLASS, O_INST, O_NAT, O_MOD, O_DICT, O_BITS, O_FRAME, O_WRAP };
struct Obj;
struct PV { u8 t = T_NONE; signed char s = 0; u8 m = 64; V v{}; i64 lo = 0, hi = 0; union { i64 i; double d; Obj *o; }; PV() { i = 0; } };
// AINT: the integer x (or dyadic rational when s < 0) with x = 2^s * y, y congruent to v modulo 2^m (m = 64: equal, two's complement), lo <= y <= hi
struct BitCell { bool whole; Cell c; Bit b[8]; };
struct Obj { OK k; u8 mark = 0; std::string s; std::vector<PV> l; Bytes by; std::vector<std::unique_ptr<Bit[]>> xb; i64 a = 0, b = 0, c = 0; std::map<std::string, PV> at; Nd *fn = nullptr; Obj *env = nullptr, *cls = nullptr; int line = 0; std::string file; };
struct Stuck { std::string msg; int line; std::string file, func; };     // the analysis cannot decide
struct Unsup { std::string msg; int line; std::string file, func; };     // outside the analysed subset
struct Raised { std::string msg; int line; std::string file, func; };    // the program stops with an error
}
struct PyI;
namespace {
std::vector<Obj *> heap; size_t heapSinceGC = 0;
Obj *mk(OK k) { Obj *o = new Obj; o->k = k; heap.push_back(o); heapSinceGC++; return o; }
PV po(Obj *o) { PV p; p.t = T_OBJ; p.o = o; return p; }
PV pi(i64 i) { PV p; p.t = T_INT; p.i = i; return p; }
PV pb(bool b) { PV p; p.t = T_BOOL; p.i = b; return p; }
PV pf(double d) { PV p; p.t = T_FLOAT; p.d = d; return p; }
PV pnone() { return PV(); }
PV pstr(const std::string &s) { Obj *o = mk(O_STR); o->s = s; return po(o); }
PV pbytes(const Bytes &b) { Obj *o = mk(O_BYTES); o->by = b; return po(o); }
PV pnat(const std::string &s) { Obj *o = mk(O_NAT); o->s = s; return po(o); }
bool isO(const PV &p, OK k) { return p.t == T_OBJ && p.o->k == k; }
bool isIntLike(const PV &p) { return p.t == T_INT || p.t == T_BOOL || p.t == T_AINT; }
}
struct PyI {
    struct Frame { std::vector<PV> slots; };
    // frames are objects (closures keep them); slots live in Obj::l
    std::map<std::string, Obj *> modules; std::map<std::string, J> modSrc; std::map<std::string, Nd *> modTree; std::vector<std::unique_ptr<Nd>> pool;
    std::vector<PV> sh;                      // shadow stack: values held by the evaluator
    std::vector<std::pair<std::string, std::string>> callStack; std::string curFile, curFunc; int line = 0;
    u32 rnd = 0; u64 rndPos = 0; u64 steps = 0, joins = 0, hashCalls = 0, aesCalls = 0; size_t lastGC = 0; std::set<std::string> reached;
    bool warned = false; int depth = 0;
    [[noreturn]] void stuck(const std::string &m) { throw Stuck{m, line, curFile, curFunc}; }
    [[noreturn]] void unsup(const std::string &m) { throw Unsup{m, line, curFile, curFunc}; }
    [[noreturn]] void raise(const std::string &m) { throw Raised{m, line, curFile, curFunc}; }
    // -------------------------------------------------------- journal
    enum LK : u8 { J_ELEM, J_SNAP, J_ATTR, J_BYTE, J_BITCELL, J_STREAM };
    struct Log { LK k; Obj *o; size_t i; std::string name; PV old; bool had; Cell oc; std::vector<PV> ol; Bytes ob; std::shared_ptr<Obj> snap; u64 pos; };
    std::vector<std::vector<Log> *> logs;
    void logElem(Obj *o, size_t i) { if (logs.empty()) return; Log l; l.k = J_ELEM; l.o = o; l.i = i; l.old = o->l[i]; logs.back()->push_back(std::move(l)); }
    void logByte(Obj *o, size_t i) { if (logs.empty()) return; Log l; l.k = J_BYTE; l.o = o; l.i = i; l.oc = o->by[i]; logs.back()->push_back(std::move(l)); }
    void logAttr(Obj *o, const std::string &n) { if (logs.empty()) return; Log l; l.k = J_ATTR; l.o = o; l.name = n; auto it = o->at.find(n); l.had = it != o->at.end(); if (l.had) l.old = it->second; logs.back()->push_back(std::move(l)); }
    void logSnap(Obj *o) { if (logs.empty()) return; for (auto &x : *logs.back()) if (x.k == J_SNAP && x.o == o) return; Log l; l.k = J_SNAP; l.o = o; l.snap = std::make_shared<Obj>(); l.snap->l = o->l; l.snap->by = o->by; l.snap->s = o->s; l.snap->a = o->a; l.snap->at = o->at; for (auto &x : o->xb) { l.snap->xb.emplace_back(); if (x) { l.snap->xb.back().reset(new Bit[8]); std::copy(x.get(), x.get() + 8, l.snap->xb.back().get()); } } logs.back()->push_back(std::move(l)); }
    // -------------------------------------------------------- integers
    static u64 lowmask(unsigned m) { return maskw(m); }
    PV norm(PV p) {      // constants become concrete
        if (p.t == T_AINT && p.v.k == K_CONST && (p.m == 64 || (p.lo >= 0 && p.hi <= (i64)maskw(p.m)) )) {
            i64 x = p.m == 64 ? (i64)p.v.b : (i64)(p.v.b & maskw(p.m));
            if (p.s >= 0) { if (p.s < 62 && x < (1ll << 61 >> p.s) && x > -(1ll << 61 >> p.s)) return pi(x * (1ll << p.s)); } else return pf(std::ldexp((double)x, p.s));
        }
        return p;
    }
    PV aint(const V &v, i64 lo, i64 hi, int s = 0, unsigned m = 64) { PV p; p.t = T_AINT; p.v = v; p.lo = lo; p.hi = hi; p.s = (signed char)s; p.m = (u8)m; if (hi > (1ll << 60) || lo < -(1ll << 60)) stuck("integer range too large for the analysis"); return norm(p); }
    PV abit(const V &b1) { return aint(vzext(b1, 64), 0, 1); }
    PV toA(const PV &p) { if (p.t == T_AINT) return p; PV r; r.t = T_AINT; r.v = vconst(64, (u64)p.i); r.lo = r.hi = p.i; r.m = 64; r.s = 0; return r; }
    bool exactable(const PV &p) { return p.m == 64 || (p.lo >= 0 && p.hi <= (i64)maskw(p.m)) || (p.m > 0 && p.lo >= -(1ll << (p.m - 1)) && p.hi < (1ll << (p.m - 1))); }
    V exactV(const PV &p) {                          // two's-complement 64-bit value of y, everything known
        if (p.m == 64) return p.v;
        if (p.lo >= 0 && p.hi <= (i64)maskw(p.m)) return vzext(vtrunc(p.v, p.m), 64);
        if (p.lo >= -(1ll << (p.m - 1)) && p.hi < (1ll << (p.m - 1))) return vsext(vtrunc(p.v, p.m), 64);
        stuck("only the low bits of an intermediate integer are known here");
    }
    PV exact(const PV &p0) { PV p = toA(p0); V v = exactV(p); if (p.s > 0) { v = binop(::O_SHL, v, vconst(64, (u64)p.s)); p.lo <<= p.s; p.hi <<= p.s; } else if (p.s < 0) stuck("a fraction is used as an integer"); PV r; r.t = T_AINT; r.v = v; r.lo = p.lo; r.hi = p.hi; return r; }
    void align2(PV &x, PV &y) {                       // same scale, without losing congruence
        if (x.s == y.s) return; PV &h = x.s > y.s ? x : y; int d = h.s - (x.s > y.s ? y.s : x.s); if (d > 60) stuck("scale");
        if (h.v.k == K_CONST || d < 16) { h.v = binop(::O_SHL, h.v, vconst(64, (u64)d)); if (h.m != 64) h.m = (u8)std::min(64, h.m + d); h.lo <<= d; h.hi <<= d; h.s = (signed char)(h.s - d); } else stuck("scale");
    }
    static bool pow2(i64 x, int &k) { if (x <= 0 || (x & (x - 1))) return false; k = __builtin_ctzll((u64)x); return true; }
    static constexpr unsigned RING = 14;              // congruences modulo less than this are bit fields, not ring arithmetic
    void settle(PV &x, PV &y) { for (int r = 0; r < 2; r++) { PV &a = r ? y : x, &b = r ? x : y; if (a.m < RING && b.m > a.m && exactable(a)) { a.v = exactV(a); a.m = 64; } } }
    PV addA(PV x, PV y, bool sub) {
        x = toA(x); y = toA(y);
        for (int r = 0; r < 2; r++) { PV &c = r ? y : x, &o = r ? x : y; if (c.v.k == K_CONST && o.v.k != K_CONST && c.m == 64 && c.s < o.s && c.v.b != 0) { int d = o.s - c.s; if (((i64)c.v.b & ((1ll << d) - 1)) == 0) { c.v = vconst(64, (u64)((i64)c.v.b >> d)); c.lo = c.hi = (i64)c.v.b; c.s = o.s; } } }
        settle(x, y); align2(x, y);
        unsigned m = std::min(x.m, y.m); V v = binop(sub ? ::O_SUB : ::O_ADD, x.v, y.v);
        return aint(v, sub ? x.lo - y.hi : x.lo + y.lo, sub ? x.hi - y.lo : x.hi + y.hi, x.s, m);
    }
    PV mulA(PV x, PV y) {
        x = toA(x); y = toA(y);
        if (x.v.k == K_CONST) std::swap(x, y);
        int k; if (y.v.k == K_CONST && y.m == 64 && y.s == 0 && pow2((i64)y.v.b, k)) { x.s = (signed char)(x.s + k); if (x.s > 60) stuck("scale"); return norm(x); }
        settle(x, y); V v = binop(::O_MUL, x.v, y.v); i128 c[4] = {(i128)x.lo * y.lo, (i128)x.lo * y.hi, (i128)x.hi * y.lo, (i128)x.hi * y.hi}; i128 lo = c[0], hi = c[0]; for (auto q : c) { if (q < lo) lo = q; if (q > hi) hi = q; }
        if (hi > ((i128)1 << 60) || lo < -((i128)1 << 60)) stuck("integer range too large for the analysis");
        return aint(v, (i64)lo, (i64)hi, x.s + y.s, std::min(x.m, y.m));
    }
    PV shrA(PV x, int k) {                            // floor(x / 2^k)
        x = toA(x);
        if (k <= x.s) { x.s = (signed char)(x.s - k); return norm(x); }
        int d = k - x.s; if (d > 62) stuck("shift"); V v; unsigned m;
        if (x.m == 64) { v = binop(::O_ASHR, x.v, vconst(64, (u64)d)); m = 64; } else if (exactable(x)) { v = binop(::O_ASHR, exactV(x), vconst(64, (u64)d)); m = 64; }
        else { if ((int)x.m <= d) stuck("only the low bits of an intermediate integer are known here"); v = binop(::O_LSHR, x.v, vconst(64, (u64)d)); m = x.m - (unsigned)d; }
        return aint(v, x.lo >> d, x.hi >> d, 0, m);
    }
    PV modA(PV x, int k) {                            // x mod 2^k
        x = toA(x); if (x.s < 0) stuck("a fraction is used as an integer");
        if (k <= x.s) return pi(0);
        int d = k - x.s; if (d >= 60) stuck("modulus");
        if ((int)x.m < d) { x = exact(x); d = k; }
        if (x.lo >= 0 && x.hi < (1ll << d) && x.m == 64) return norm(x);
        i64 hi = (x.lo >= 0 && x.hi < (1ll << d)) ? x.hi : (1ll << d) - 1;
        if (d > 16) { V v = vzext(vtrunc(exactable(x) ? exactV(x) : x.v, (unsigned)d), 64); return aint(v, 0, hi, x.s, 64); }
        return aint(x.v, 0, hi, x.s, (unsigned)d);
    }
    static i64 fdiv(i64 a, i64 b) { i64 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
    PV bitw(u8 op, const PV &x0, const PV &y0) {
        PV x = exact(x0), y = exact(y0); V v = binop(op == P_AND ? ::O_AND : op == P_OR ? ::O_OR : ::O_XOR, x.v, y.v);
        auto ones = [](i64 h) { u64 m = (u64)h; for (int s = 1; s < 64; s *= 2) m |= m >> s; return (i64)m; };
        i64 lo, hi;
        if (op == P_AND && (x.lo >= 0 || y.lo >= 0)) { lo = 0; hi = x.lo >= 0 && y.lo >= 0 ? std::min(x.hi, y.hi) : x.lo >= 0 ? x.hi : y.hi; }
        else if (x.lo >= 0 && y.lo >= 0) { lo = 0; hi = ones(x.hi) | ones(y.hi); }
        else { i64 a = std::max(std::max(x.hi, y.hi), std::max(~x.lo, ~y.lo)); a = ones(std::max<i64>(a, 0)); lo = ~a; hi = a; }
        return aint(v, lo, hi);
    }
    PV uniApply(const PV &x, u64 tag, i64 lo, i64 hi, std::function<i64(i64)> f) {      // unary function of a value of few bits
        PV e = exact(x); if (e.lo < 0 || e.hi > 0xffff) stuck("division of a wide abstract integer"); bool ok = true;
        V r = tableLookup(vtrunc(e.v, 16), [&](u64 i, u64 &o) { o = (u64)f((i64)i); return true; }, 64, ok); if (!ok) stuck("function of an abstract integer"); (void)tag; return aint(r, lo, hi);
    }
    PV bin(u8 op, const PV &x, const PV &y) {
        if (x.t == T_UNDEF || y.t == T_UNDEF) raise("variable used before it is set");
        if ((x.t == T_INT || x.t == T_BOOL) && (y.t == T_INT || y.t == T_BOOL)) {
            i64 a = x.i, b = y.i, r; bool both = x.t == T_BOOL && y.t == T_BOOL;
            switch (op) {
            case P_ADD: if (__builtin_add_overflow(a, b, &r)) stuck("large integer"); return pi(r);
            case P_SUB: if (__builtin_sub_overflow(a, b, &r)) stuck("large integer"); return pi(r);
            case P_MUL: if (__builtin_mul_overflow(a, b, &r)) stuck("large integer"); return pi(r);
            case P_DIV: if (!b) raise("division by zero"); return pf((double)a / (double)b);
            case P_FDIV: if (!b) raise("division by zero"); return pi(fdiv(a, b));
            case P_MOD: if (!b) raise("division by zero"); return pi(a - fdiv(a, b) * b);
            case P_POW: if (b < 0) return pf(std::pow((double)a, (double)b)); r = 1; for (i64 k = 0; k < b; k++) { if (__builtin_mul_overflow(r, a, &r)) stuck("large integer"); if (a == 1 || a == 0) break; if (a == -1) { r = b & 1 ? -1 : 1; break; } } return pi(r);
            case P_SHL: if (b < 0 || b > 62) stuck("shift"); r = a << b; if ((r >> b) != a) stuck("large integer"); return pi(r);
            case P_SHR: if (b < 0) raise("negative shift"); return pi(b > 63 ? (a < 0 ? -1 : 0) : a >> b);
            case P_AND: return both ? pb(a & b) : pi(a & b); case P_OR: return both ? pb(a | b) : pi(a | b); case P_XOR: return both ? pb(a ^ b) : pi(a ^ b);
            }
        }
        bool nx = isIntLike(x) || x.t == T_FLOAT, ny = isIntLike(y) || y.t == T_FLOAT;
        if (nx && ny && x.t != T_AINT && y.t != T_AINT) {
            double a = x.t == T_FLOAT ? x.d : (double)x.i, b = y.t == T_FLOAT ? y.d : (double)y.i;
            switch (op) { case P_ADD: return pf(a + b); case P_SUB: return pf(a - b); case P_MUL: return pf(a * b); case P_DIV: return pf(a / b); case P_FDIV: return pf(std::floor(a / b)); case P_MOD: return pf(a - std::floor(a / b) * b); case P_POW: return pf(std::pow(a, b)); default: raise("type error"); }
        }
        if (nx && ny) {
            auto fl = [&](const PV &p) { if (p.t != T_FLOAT) return p; double d = p.d; int s = 0; while (d != std::floor(d)) { d *= 2; s--; if (s < -40) stuck("fraction"); } PV r = toA(pi((i64)d)); r.s = (signed char)s; return r; };
            PV a = fl(x), b = fl(y); i64 c = 0; int k = 0; bool bc = y.t == T_INT || y.t == T_BOOL; if (bc) c = y.i;
            switch (op) {
            case P_ADD: return addA(a, b, false); case P_SUB: return addA(a, b, true);
            case P_MUL: return mulA(a, b);
            case P_DIV: if (y.t == T_FLOAT && y.d == std::floor(y.d)) { bc = true; c = (i64)y.d; } if (bc && pow2(c, k)) { PV r = toA(a); if (r.m != 64) { r.v = exactV(r); r.m = 64; } if (r.hi >= (1ll << 53) || r.lo <= -(1ll << 53)) stuck("inexact division"); r.s = (signed char)(r.s - k); return r; } stuck("division of an abstract integer");
            case P_FDIV: if (bc && pow2(c, k)) return shrA(a, k); if (bc && c > 0 && a.s == 0) return uniApply(a, 1, 0, a.hi / c, [c](i64 q) { return q / c; }); stuck("division of an abstract integer");
            case P_MOD: if (bc && pow2(c, k)) return modA(a, k); if (bc && c > 0 && a.s == 0) return uniApply(a, 2, 0, c - 1, [c](i64 q) { return q % c; }); stuck("remainder of an abstract integer");
            case P_SHR: if (bc && c >= 0) return shrA(a, (int)std::min<i64>(c, 63)); return shiftA(a, b, op);
            case P_SHL: if (bc && c >= 0 && c < 60) { PV r = toA(a); r.s = (signed char)(r.s + c); if (r.s > 60) stuck("shift"); return norm(r); } return shiftA(a, b, op);
            case P_POW: return powA(x, b);
            case P_AND: if (bc && c >= 0 && ((c & (c + 1)) == 0) && c < (1ll << 58)) return modA(a, __builtin_popcountll((u64)c)); return bitw(op, a, b);
            case P_OR: case P_XOR: return bitw(op, a, b);
            }
        }
        return binObj(op, x, y);
    }
    PV shiftA(const PV &a, const PV &n, u8 op) {
        PV e = exact(n); if (e.lo < 0 || e.hi > 31) stuck("shift by an abstract amount"); PV r = a;
        for (int k = 0; k < 5; k++) { if (e.hi < (1 << k)) break; PV t = op == P_SHL ? bin(P_SHL, r, pi(1ll << k)) : bin(P_SHR, r, pi(1ll << k)); Bit b = bitOf(e.v, (unsigned)k); r = sel(mkBits(&b, 1), t, r); }
        return r;
    }
    PV powA(const PV &base, const PV &n) {
        if (n.t != T_AINT) { i64 k = n.i; if (k < 0 || k > 64) stuck("power"); PV r = pi(1); for (i64 i = 0; i < k; i++) r = bin(P_MUL, r, base); return r; }
        PV e = exact(n); if (e.lo < 0 || e.hi > 31) stuck("abstract exponent"); PV r = pi(1), p = base;
        for (int k = 0; k < 5; k++) { if (e.hi < (1 << k)) break; Bit b = bitOf(e.v, (unsigned)k); r = sel(mkBits(&b, 1), bin(P_MUL, r, p), r); if (e.hi >= (2 << k)) p = bin(P_MUL, p, p); }
        return r;
    }
    // value of one type depending on an abstract bit
    PV sel(const V &c, const PV &x, const PV &y) {
        if (c.k == K_CONST) return c.b ? x : y;
        if (x.t == y.t && x.t != T_AINT) { if (x.t == T_NONE || x.t == T_UNDEF) return x; if (x.t == T_OBJ ? x.o == y.o : x.t == T_FLOAT ? x.d == y.d : x.i == y.i) return x; }
        if (isIntLike(x) && isIntLike(y)) {
            PV a = toA(x), b = toA(y); if (a.s != b.s) { if (a.v.k == K_CONST && a.v.b == 0) a.s = b.s; else if (b.v.k == K_CONST && b.v.b == 0) b.s = a.s; else align2(a, b); }
            if (exactable(a) && exactable(b)) { V va = exactV(a), vb = exactV(b); return aint(vselect(c, va, vb), std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.s, 64); }
            unsigned m = std::min(a.m, b.m); return aint(vselect(c, a.v, b.v), std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.s, m);
        }
        if ((x.t == T_UNDEF) != (y.t == T_UNDEF)) { PV u; u.t = T_UNDEF; return u; }      // only bound on one side: unusable afterwards
        if (x.t == T_OBJ && y.t == T_OBJ && x.o->k == y.o->k) {
            OK k = x.o->k;
            if (k == O_BYTES && x.o->by.size() == y.o->by.size()) { Bytes r; for (size_t i = 0; i < x.o->by.size(); i++) r.push_back(selCell(c, x.o->by[i], y.o->by[i])); return pbytes(r); }
            if ((k == O_TUPLE || (k == O_LIST && fresh(x.o) && fresh(y.o))) && x.o->l.size() == y.o->l.size()) { Obj *o = mk(k); sh.push_back(po(o)); for (size_t i = 0; i < x.o->l.size(); i++) { PV e = sel(c, x.o->l[i], y.o->l[i]); o->l.push_back(e); } sh.pop_back(); return po(o); }
            if (k == O_STR && x.o->s == y.o->s) return x;
            if (k == O_STR && x.o->s.size() == y.o->s.size() && x.o->s.compare(0, 2, "0b") == 0 && y.o->s.compare(0, 2, "0b") == 0) { PV p = newBits({x}, {}, "Bits"); sh.push_back(p); PV q = newBits({y}, {}, "Bits"); sh.push_back(q); Bit cb = bitOf(c, 0); for (i64 i = 0; i < p.o->a; i++) { Bit u = bitGet(p.o, i), w = bitGet(q.o, i); if (!beq(u, w)) bitSet(p.o, i, bmux(cb, u, w)); } sh.pop_back(); sh.pop_back(); return p; }
        }
        stuck("the value depends on data in a way the analysis cannot express (different kinds of object)");
    }
    bool fresh(Obj *) { return true; }
    Cell selCell(const V &c, const Cell &a, const Cell &b) { if (a.id == b.id && a.sub == b.sub) return a; Cell r; vToCells(vselect(c, cellsToV(&a, 1, false), cellsToV(&b, 1, false)), &r, 1, false); return r; }
    V truthV(const PV &p) {
        switch (p.t) {
        case T_NONE: return vconst(1, 0); case T_BOOL: case T_INT: return vconst(1, p.i != 0); case T_FLOAT: return vconst(1, p.d != 0);
        case T_AINT: { PV e = p; if (exactable(e)) { if (e.lo > 0 || e.hi < 0) return vconst(1, 1); V v = exactV(e); if (e.lo >= 0 && e.hi <= 1) return vtrunc(v, 1); return binop(::O_NE, v, vconst(64, 0)); } stuck("truth of an integer of which only low bits are known"); }
        case T_OBJ: switch (p.o->k) { case O_STR: return vconst(1, !p.o->s.empty()); case O_BYTES: case O_BARR: return vconst(1, !p.o->by.empty()); case O_LIST: case O_TUPLE: return vconst(1, !p.o->l.empty()); case O_DICT: return vconst(1, !p.o->l.empty()); case O_RANGE: return vconst(1, rangeLen(p.o) > 0); default: return vconst(1, 1); }
        default: raise("variable used before it is set");
        }
    }
    bool truth(const PV &p) { V v = truthV(p); if (v.k != K_CONST) stuck("control flow depends on data here"); return v.b; }
    i64 rangeLen(Obj *o) { if (o->c > 0) return o->b > o->a ? (o->b - o->a + o->c - 1) / o->c : 0; return o->b < o->a ? (o->a - o->b - o->c - 1) / -o->c : 0; }
    i64 toInt(const PV &p, const char *what = "index") { if (p.t == T_INT || p.t == T_BOOL) return p.i; if (p.t == T_AINT) stuck(std::string(what) + " depends on data"); if (p.t == T_UNDEF) raise("variable used before it is set"); raise(std::string(what) + " is not an integer"); }
    // -------------------------------------------------------- bytes and bits
    PV byteAt(const Cell &c) { return aint(vzext(cellsToV(&c, 1, false), 64), 0, 255); }
    Cell toByte(const PV &p) {
        if (p.t == T_INT || p.t == T_BOOL) { if (p.i < 0 || p.i > 255) raise("byte out of range"); return Cell{CELL_CONST, (u32)p.i}; }
        if (p.t != T_AINT) raise("byte is not an integer");
        PV e = exact(p); if (e.lo < 0 || e.hi > 255) { if (!(mayOnes(e.v) & ~255ull)) {} else stuck("a byte may be out of range"); }
        Cell c; vToCells(vtrunc(e.v, 8), &c, 1, false); return c;
    }
    u64 mayOnes(const V &v) { Bit b[64]; bitsOf(v, b); u64 r = 0; for (int i = 0; i < 64; i++) if (b[i].f || b[i].c) r |= 1ull << i; return r; }
    V intV(const PV &p, unsigned w, bool sg) {           // w-bit representation, range checked
        PV e = exact(p); i64 lo = sg ? -(1ll << (w - 1)) : 0, hi = sg ? (1ll << (w - 1)) - 1 : w >= 63 ? INT64_MAX : (1ll << w) - 1;
        if (e.lo < lo || e.hi > hi) { if (e.v.k == K_CONST) raise("integer out of range"); stuck("an integer may be out of range"); }
        return vtrunc(e.v, w);
    }
    // bit arrays: by = whole bytes, xb[i] = exploded bits of byte i (most significant first), a = length in bits
    Bit *explode(Obj *o, size_t i) { if (o->xb.size() <= i) o->xb.resize(i + 1); if (!o->xb[i]) { o->xb[i].reset(new Bit[8]); Bit b[8]; bitsOf(cellsToV(&o->by[i], 1, false), b); for (int k = 0; k < 8; k++) o->xb[i][k] = b[7 - k]; } return o->xb[i].get(); }
    Bit bitGet(Obj *o, i64 p) { if (p < 0) p += o->a; if (p < 0 || p >= o->a) raise("bit index out of range"); size_t i = (size_t)p / 8; if (o->xb.size() > i && o->xb[i]) return o->xb[i][p % 8]; Bit b[8]; bitsOf(cellsToV(&o->by[i], 1, false), b); return b[7 - p % 8]; }
    void bitSet(Obj *o, i64 p, const Bit &b) { if (p < 0) p += o->a; if (p < 0 || p >= o->a) raise("bit index out of range"); logSnap(o); explode(o, (size_t)p / 8)[p % 8] = b; }
    Cell bitByte(Obj *o, size_t i) { if (o->xb.size() > i && o->xb[i]) { Bit b[8]; for (int k = 0; k < 8; k++) b[7 - k] = o->xb[i][k]; return cellOf(mkBits(b, 8)); } return o->by[i]; }
    Bytes bitBytes(Obj *o) { Bytes r; for (size_t i = 0; i < o->by.size(); i++) r.push_back(bitByte(o, i)); return r; }
    void bitAppend(Obj *o, Obj *x) {      // x: bit array or bytes
        logSnap(o); i64 n = x->k == O_BITS ? x->a : (i64)x->by.size() * 8;
        if (o->a % 8 == 0 && n % 8 == 0) { Bytes add = x->k == O_BITS ? bitBytes(x) : x->by; o->by.insert(o->by.end(), add.begin(), add.end()); o->a += n; return; }
        for (i64 i = 0; i < n; i++) { Bit b; if (x->k == O_BITS) b = bitGet(x, i); else { Bit t[8]; bitsOf(cellsToV(&x->by[(size_t)i / 8], 1, false), t); b = t[7 - i % 8]; } if (o->a % 8 == 0) o->by.push_back(Cell{CELL_CONST, 0}); o->a++; explode(o, (size_t)(o->a - 1) / 8)[(o->a - 1) % 8] = b; }
    }
    PV bitInt(Obj *o, i64 pos, i64 n, bool sg, bool le) {
        if (n <= 0 || n > 56) stuck("bit field width"); std::vector<Bit> b((size_t)n);
        if (le) { if (n % 8) raise("bit field is not whole bytes"); for (i64 i = 0; i < n; i++) { i64 byte = i / 8, bit = i % 8; b[(size_t)(byte * 8 + bit)] = bitGet(o, pos + byte * 8 + (7 - bit)); }
            if (pos % 8 == 0) { bool whole = true; for (i64 i = 0; i < n / 8; i++) if (o->xb.size() > (size_t)(pos / 8 + i) && o->xb[(size_t)(pos / 8 + i)]) whole = false; if (whole) { V v = cellsToV(&o->by[(size_t)pos / 8], (unsigned)n / 8, false); return aint(sg ? vsext(v, 64) : vzext(v, 64), sg ? -(1ll << (n - 1)) : 0, sg ? (1ll << (n - 1)) - 1 : (1ll << n) - 1); } } }
        else for (i64 i = 0; i < n; i++) b[(size_t)(n - 1 - i)] = bitGet(o, pos + i);
        V v = mkBits(b.data(), (unsigned)n); return aint(sg ? vsext(v, 64) : vzext(v, 64), sg ? -(1ll << (n - 1)) : 0, sg ? (1ll << (n - 1)) - 1 : (1ll << n) - 1);
    }
    // -------------------------------------------------------- comparison
    V eqV(const PV &x, const PV &y) {
        if (isIntLike(x) && isIntLike(y)) {
            if (x.t != T_AINT && y.t != T_AINT) return vconst(1, x.i == y.i);
            PV a = toA(x), b = toA(y); if (a.s != b.s) { a = exact(a); b = exact(b); }
            if (a.lo > b.hi || b.lo > a.hi) return vconst(1, 0);
            return binop(::O_EQ, exactV(a), exactV(b));
        }
        if (x.t == T_FLOAT || y.t == T_FLOAT) { if (x.t == T_AINT || y.t == T_AINT) stuck("comparison with a fraction"); double a = x.t == T_FLOAT ? x.d : (double)x.i, b = y.t == T_FLOAT ? y.d : (double)y.i; bool num = (x.t == T_FLOAT || x.t == T_INT || x.t == T_BOOL) && (y.t == T_FLOAT || y.t == T_INT || y.t == T_BOOL); return vconst(1, num && a == b); }
        if (x.t != y.t) return vconst(1, 0);
        if (x.t == T_NONE) return vconst(1, 1);
        if (x.t == T_OBJ) {
            if (x.o == y.o) return vconst(1, 1);
            OK k = x.o->k, l = y.o->k;
            if (k == O_STR && l == O_STR) return vconst(1, x.o->s == y.o->s);
            if ((k == O_BYTES || k == O_BARR) && (l == O_BYTES || l == O_BARR)) { if (x.o->by.size() != y.o->by.size()) return vconst(1, 0); Bit acc = bconst(1); for (size_t i = 0; i < x.o->by.size(); i++) { Bit a[8], b[8]; bitsOf(cellsToV(&x.o->by[i], 1, false), a); bitsOf(cellsToV(&y.o->by[i], 1, false), b); for (int q = 0; q < 8; q++) acc = band(acc, bnot(bxor(a[q], b[q]))); } return mkBits(&acc, 1); }
            if (k == l && (k == O_LIST || k == O_TUPLE)) { if (x.o->l.size() != y.o->l.size()) return vconst(1, 0); V acc = vconst(1, 1); for (size_t i = 0; i < x.o->l.size(); i++) acc = binop(::O_AND, acc, eqV(x.o->l[i], y.o->l[i])); return acc; }
            if (k == O_BITS && l == O_BITS) { if (x.o->a != y.o->a) return vconst(1, 0); Bit acc = bconst(1); for (i64 i = 0; i < x.o->a; i++) acc = band(acc, bnot(bxor(bitGet(x.o, i), bitGet(y.o, i)))); return mkBits(&acc, 1); }
            if (k == O_RANGE && l == O_RANGE) return vconst(1, x.o->a == y.o->a && x.o->b == y.o->b && x.o->c == y.o->c);
            return vconst(1, 0);
        }
        raise("variable used before it is set");
    }
    V cmp(u8 op, const PV &x, const PV &y) {
        if (x.t == T_UNDEF || y.t == T_UNDEF) raise("variable used before it is set");
        auto inv = [&](V v) { return binop(::O_XOR, v, vconst(1, 1)); };
        switch (op) {
        case C_EQ: return eqV(x, y); case C_NE: return inv(eqV(x, y));
        case C_IS: case C_ISNOT: { V v; if (x.t == T_OBJ && y.t == T_OBJ) v = vconst(1, x.o == y.o); else if (x.t != y.t && !(isIntLike(x) && isIntLike(y))) v = vconst(1, 0); else v = eqV(x, y); return op == C_IS ? v : inv(v); }
        case C_IN: case C_NOTIN: { V acc = vconst(1, 0); if (isO(y, O_STR) && isO(x, O_STR)) acc = vconst(1, y.o->s.find(x.o->s) != std::string::npos); else if (isO(y, O_DICT)) { for (size_t i = 0; i < y.o->l.size(); i += 2) acc = binop(::O_OR, acc, eqV(x, y.o->l[i])); } else { std::vector<PV> l = items(y); for (auto &e : l) acc = binop(::O_OR, acc, eqV(x, e)); } return op == C_IN ? acc : inv(acc); }
        default: break;
        }
        if (isO(x, O_STR) && isO(y, O_STR)) { int c = x.o->s.compare(y.o->s); return vconst(1, op == C_LT ? c < 0 : op == C_LE ? c <= 0 : op == C_GT ? c > 0 : c >= 0); }
        if (x.t == T_AINT || y.t == T_AINT) {
            PV f = x, g = y; if (f.t == T_FLOAT || g.t == T_FLOAT) stuck("comparison with a fraction"); f = toA(f); g = toA(g); if (f.s != g.s || f.s < 0) { f = exact(f); g = exact(g); }
            V a, b; switch (op) { case C_LT: if (f.hi < g.lo) return vconst(1, 1); if (f.lo >= g.hi) return vconst(1, 0); return binop(::O_SLT, exactV(f), exactV(g)); case C_LE: if (f.hi <= g.lo) return vconst(1, 1); if (f.lo > g.hi) return vconst(1, 0); return binop(::O_SLE, exactV(f), exactV(g)); case C_GT: if (f.lo > g.hi) return vconst(1, 1); if (f.hi <= g.lo) return vconst(1, 0); return binop(::O_SGT, exactV(f), exactV(g)); default: if (f.lo >= g.hi) return vconst(1, 1); if (f.hi < g.lo) return vconst(1, 0); return binop(::O_SGE, exactV(f), exactV(g)); }
        }
        if (x.t == T_OBJ || y.t == T_OBJ || x.t == T_NONE || y.t == T_NONE) stuck("ordering of objects");
        double a = x.t == T_FLOAT ? x.d : (double)x.i, b = y.t == T_FLOAT ? y.d : (double)y.i;
        return vconst(1, op == C_LT ? a < b : op == C_LE ? a <= b : op == C_GT ? a > b : a >= b);
    }
    // -------------------------------------------------------- sequences
    std::vector<PV> items(const PV &p) {
        std::vector<PV> r;
        if (p.t != T_OBJ) raise("not iterable");
        Obj *o = p.o;
        switch (o->k) {
        case O_LIST: case O_TUPLE: return o->l;
        case O_BYTES: case O_BARR: for (auto &c : o->by) r.push_back(byteAt(c)); return r;
        case O_RANGE: { i64 n = rangeLen(o); for (i64 i = 0; i < n; i++) r.push_back(pi(o->a + i * o->c)); return r; }
        case O_DICT: for (size_t i = 0; i < o->l.size(); i += 2) r.push_back(o->l[i]); return r;
        case O_STR: for (char c : o->s) r.push_back(pstr(std::string(1, c))); return r;
        case O_BITS: for (i64 i = 0; i < o->a; i++) { Bit b = bitGet(o, i); r.push_back(abit(mkBits(&b, 1))); } return r;
        default: unsup("iteration over this kind of object");
        }
    }
    i64 lenOf(const PV &p) {
        if (p.t == T_OBJ) switch (p.o->k) { case O_LIST: case O_TUPLE: return (i64)p.o->l.size(); case O_BYTES: case O_BARR: return (i64)p.o->by.size(); case O_STR: return (i64)p.o->s.size(); case O_RANGE: return rangeLen(p.o); case O_DICT: return (i64)p.o->l.size() / 2; case O_BITS: return p.o->a; default: break; }
        raise("object has no length");
    }
    Obj *dictGet(Obj *d, const PV &k, size_t &at) { for (size_t i = 0; i < d->l.size(); i += 2) { V e = eqV(d->l[i], k); if (e.k != K_CONST) stuck("dictionary key depends on data"); if (e.b) { at = i; return d; } } return nullptr; }
    PV getItem(const PV &c, const PV &ix) {
        if (c.t != T_OBJ) raise("not subscriptable");
        Obj *o = c.o;
        if (o->k == O_DICT) { size_t at; if (!dictGet(o, ix, at)) raise("missing dictionary key"); return o->l[at + 1]; }
        if (ix.t == T_AINT) {
            PV e = exact(ix); i64 n = lenOf(c); if (e.lo < 0 || e.hi >= n) stuck("an index that depends on data may be out of range"); if (n > 65536) stuck("index depends on data");
            std::vector<i64> tab; for (auto &x : items(c)) { if (x.t != T_INT && x.t != T_BOOL) stuck("index depends on data"); tab.push_back(x.i); }
            i64 lo = *std::min_element(tab.begin(), tab.end()), hi = *std::max_element(tab.begin(), tab.end()); bool ok = true;
            V r = tableLookup(vtrunc(e.v, 16), [&](u64 i, u64 &out) { out = i < tab.size() ? (u64)tab[i] : 0; return true; }, 64, ok); if (!ok) stuck("index depends on data"); return aint(r, lo, hi);
        }
        i64 i = toInt(ix), n = lenOf(c); if (i < 0) i += n; if (i < 0 || i >= n) raise("index out of range");
        switch (o->k) { case O_LIST: case O_TUPLE: return o->l[(size_t)i]; case O_BYTES: case O_BARR: return byteAt(o->by[(size_t)i]); case O_STR: return pstr(std::string(1, o->s[(size_t)i])); case O_RANGE: return pi(o->a + i * o->c); case O_BITS: { Bit b = bitGet(o, i); return abit(mkBits(&b, 1)); } default: unsup("subscript"); }
    }
    PV getSlice(const PV &c, const PV &lo, const PV &hi, const PV &st) {
        i64 n = lenOf(c), s = st.t == T_NONE ? 1 : toInt(st); if (!s) raise("slice step");
        auto cl = [&](const PV &p, i64 d) { if (p.t == T_NONE) return d; i64 x = toInt(p); if (x < 0) x += n; if (s > 0) return std::min(std::max<i64>(x, 0), n); return std::min(std::max<i64>(x, -1), n - 1); };
        i64 a = cl(lo, s > 0 ? 0 : n - 1), b = cl(hi, s > 0 ? n : -1); std::vector<i64> ix; for (i64 i = a; s > 0 ? i < b : i > b; i += s) ix.push_back(i);
        Obj *o = c.o;
        switch (o->k) {
        case O_LIST: case O_TUPLE: { Obj *r = mk(o->k); for (i64 i : ix) r->l.push_back(o->l[(size_t)i]); return po(r); }
        case O_BYTES: case O_BARR: { Obj *r = mk(o->k); for (i64 i : ix) r->by.push_back(o->by[(size_t)i]); return po(r); }
        case O_STR: { std::string r; for (i64 i : ix) r += o->s[(size_t)i]; return pstr(r); }
        case O_RANGE: { Obj *r = mk(O_RANGE); r->a = o->a + a * o->c; r->b = o->a + b * o->c; r->c = o->c * s; return po(r); }
        case O_BITS: { Obj *r = mk(O_BITS); for (i64 i : ix) { if (r->a % 8 == 0) r->by.push_back(Cell{CELL_CONST, 0}); r->a++; explode(r, (size_t)(r->a - 1) / 8)[(r->a - 1) % 8] = bitGet(o, i); } return po(r); }
        default: unsup("slice");
        }
    }
    void setItem(const PV &c, const PV &ix, const PV &v) {
        if (c.t != T_OBJ) raise("object does not support item assignment");
        Obj *o = c.o;
        if (v.t == T_UNDEF) raise("variable used before it is set");
        switch (o->k) {
        case O_LIST: { i64 i = toInt(ix), n = (i64)o->l.size(); if (i < 0) i += n; if (i < 0 || i >= n) raise("index out of range"); logElem(o, (size_t)i); o->l[(size_t)i] = v; return; }
        case O_BARR: { i64 i = toInt(ix), n = (i64)o->by.size(); if (i < 0) i += n; if (i < 0 || i >= n) raise("index out of range"); Cell b = toByte(v); logByte(o, (size_t)i); o->by[(size_t)i] = b; return; }
        case O_DICT: { size_t at; if (dictGet(o, ix, at)) { logElem(o, at + 1); o->l[at + 1] = v; } else { logSnap(o); o->l.push_back(ix); o->l.push_back(v); } return; }
        case O_BITS: { bitSet(o, toInt(ix), truthBit(v)); return; }
        default: raise("object does not support item assignment");
        }
    }
    Bit truthBit(const PV &v) { return bitOf(truthV(v), 0); }
    void setSlice(const PV &c, const PV &lo, const PV &hi, const PV &st, const PV &v) {
        if (c.t != T_OBJ || (c.o->k != O_LIST && c.o->k != O_BARR)) unsup("slice assignment");
        Obj *o = c.o; i64 n = lenOf(c); if (st.t != T_NONE && toInt(st) != 1) {
            i64 s = toInt(st); if (s <= 0) unsup("slice assignment"); i64 a = lo.t == T_NONE ? 0 : toInt(lo), b = hi.t == T_NONE ? n : toInt(hi); if (a < 0) a += n; if (b < 0) b += n; b = std::min(b, n); auto it = items(v); size_t q = 0; for (i64 i = a; i < b; i += s) { if (q >= it.size()) raise("slice length"); setItem(c, pi(i), it[q++]); } if (q != it.size()) raise("slice length"); return; }
        i64 a = lo.t == T_NONE ? 0 : toInt(lo), b = hi.t == T_NONE ? n : toInt(hi); if (a < 0) a += n; if (b < 0) b += n; a = std::min(std::max<i64>(a, 0), n); b = std::min(std::max<i64>(b, a), n);
        std::vector<PV> it = items(v); logSnap(o);
        if (o->k == O_LIST) { o->l.erase(o->l.begin() + a, o->l.begin() + b); o->l.insert(o->l.begin() + a, it.begin(), it.end()); }
        else { Bytes x; for (auto &p : it) x.push_back(toByte(p)); o->by.erase(o->by.begin() + a, o->by.begin() + b); o->by.insert(o->by.begin() + a, x.begin(), x.end()); }
    }
    PV binObj(u8 op, const PV &x, const PV &y) {
        if (op == P_ADD && x.t == T_OBJ && y.t == T_OBJ) {
            Obj *a = x.o, *b = y.o;
            if ((a->k == O_BYTES || a->k == O_BARR) && (b->k == O_BYTES || b->k == O_BARR)) { Obj *r = mk(a->k); r->by = a->by; r->by.insert(r->by.end(), b->by.begin(), b->by.end()); return po(r); }
            if (a->k == b->k && (a->k == O_LIST || a->k == O_TUPLE)) { Obj *r = mk(a->k); r->l = a->l; r->l.insert(r->l.end(), b->l.begin(), b->l.end()); return po(r); }
            if (a->k == O_STR && b->k == O_STR) return pstr(a->s + b->s);
            if (a->k == O_BITS) { Obj *r = mk(O_BITS); sh.push_back(po(r)); bitAppend(r, a); bitAppend(r, b); sh.pop_back(); return po(r); }
        }
        if (op == P_MUL && x.t == T_OBJ && (y.t == T_INT || y.t == T_BOOL)) {
            Obj *a = x.o, *r = mk(a->k); if (y.i > (1 << 22)) stuck("repetition");
            for (i64 i = 0; i < y.i; i++) { if (a->k == O_LIST || a->k == O_TUPLE) r->l.insert(r->l.end(), a->l.begin(), a->l.end()); else if (a->k == O_BYTES || a->k == O_BARR) r->by.insert(r->by.end(), a->by.begin(), a->by.end()); else if (a->k == O_STR) r->s += a->s; else unsup("repetition"); }
            return po(r);
        }
        if (op == P_MUL && y.t == T_OBJ && (x.t == T_INT || x.t == T_BOOL)) return binObj(op, y, x);
        if (op == P_MOD && isO(x, O_STR)) { std::vector<PV> a = isO(y, O_TUPLE) ? y.o->l : std::vector<PV>{y}; return pstr(fmtPct(x.o->s, a)); }
        raise("unsupported operand types");
    }
    std::string show(const PV &p) { char b[64]; switch (p.t) { case T_NONE: return "None"; case T_BOOL: return p.i ? "True" : "False"; case T_INT: return std::to_string(p.i); case T_FLOAT: snprintf(b, sizeof b, "%g", p.d); return b; case T_OBJ: if (p.o->k == O_STR) return p.o->s; default: return "<data>"; } }
    std::string fmtPct(const std::string &f, const std::vector<PV> &a) { std::string r; size_t q = 0; for (size_t i = 0; i < f.size(); i++) { if (f[i] != '%') { r += f[i]; continue; } if (i + 1 < f.size() && f[i + 1] == '%') { r += '%'; i++; continue; } while (i + 1 < f.size() && !isalpha((u8)f[i + 1])) i++; i++; r += q < a.size() ? show(a[q]) : "?"; q++; } return r; }
    // -------------------------------------------------------- attributes and calls
    Obj *classAttr(Obj *c, const std::string &n) { if (c->at.count(n)) return c; for (auto &b : c->l) if (isO(b, O_CLASS)) if (Obj *r = classAttr(b.o, n)) return r; return nullptr; }
    PV bound(const PV &self, const PV &f) { Obj *b = mk(O_BOUND); b->l = {self, f}; return po(b); }
    PV natMethod(const PV &self, const std::string &n) { Obj *b = mk(O_BOUND); b->l = {self, pnone()}; b->s = n; return po(b); }
    PV getAttr(const PV &p, const std::string &n) {
        if (p.t == T_UNDEF) raise("variable used before it is set");
        if (p.t != T_OBJ) return natMethod(p, n);
        Obj *o = p.o;
        if (o->k == O_MOD) { auto it = o->at.find(n); if (it != o->at.end()) return it->second; if (o->a) raise("module has no attribute " + n); return pnat(o->s + "." + n); }
        if (o->k == O_NAT) return pnat(o->s + "." + n);
        if (o->k == O_INST) {
            auto it = o->at.find(n); if (it != o->at.end()) return it->second;
            if (o->cls) { Obj *c = classAttr(o->cls, n); if (c) { PV f = c->at[n]; if (isO(f, O_FUNC)) return bound(p, f); if (isO(f, O_WRAP)) { if (f.o->s == "static") return f.o->l[0]; if (f.o->s == "class") return bound(po(o->cls), f.o->l[0]); return call(f.o->l[0], {p}, {}); } return f; } if (n == "__class__") return po(o->cls); raise("no attribute " + n); }
            if (o->s.size()) return natMethod(p, n);
            raise("no attribute " + n);
        }
        if (o->k == O_CLASS) { Obj *c = classAttr(o, n); if (c) { PV f = c->at[n]; if (isO(f, O_WRAP)) { if (f.o->s == "static") return f.o->l[0]; if (f.o->s == "class") return bound(p, f.o->l[0]); } return f; } if (n == "__name__") return pstr(o->s); raise("no attribute " + n); }
        if (o->k == O_BITS && (n == "bytes")) { if (o->a % 8) raise("not whole bytes"); return pbytes(bitBytes(o)); }
        if (o->k == O_BITS && (n == "len" || n == "length")) return pi(o->a);
        if (o->k == O_BITS && n == "pos") return pi(o->c);
        if (o->k == O_BITS && (n == "uint" || n == "uintbe")) return bitInt(o, 0, o->a, false, false);
        if (o->k == O_BITS && (n == "int" || n == "intbe")) return bitInt(o, 0, o->a, true, false);
        if (o->k == O_BITS && n == "uintle") return bitInt(o, 0, o->a, false, true);
        if (o->k == O_BITS && n == "intle") return bitInt(o, 0, o->a, true, true);
        if (o->k == O_FUNC && n == "__name__") return pstr(o->fn->s);
        return natMethod(p, n);
    }
    void setAttr(const PV &p, const std::string &n, const PV &v) { if (v.t == T_UNDEF) raise("variable used before it is set"); if (p.t != T_OBJ || (p.o->k != O_INST && p.o->k != O_CLASS && p.o->k != O_MOD)) unsup("attribute assignment " + n); logAttr(p.o, n); p.o->at[n] = v; }
    struct KW { std::string n; PV v; };
    PV call(const PV &f, const std::vector<PV> &args, const std::vector<KW> &kw) {
        if (f.t != T_OBJ) raise("object is not callable");
        Obj *o = f.o; size_t base = sh.size(); sh.push_back(f); for (auto &a : args) sh.push_back(a); for (auto &k : kw) sh.push_back(k.v);
        PV r;
        if (o->k == O_FUNC) r = callFunc(o, args, kw);
        else if (o->k == O_BOUND) { if (o->l[1].t == T_NONE) r = callMethod(o->l[0], o->s, args, kw); else { std::vector<PV> a{o->l[0]}; a.insert(a.end(), args.begin(), args.end()); r = call(o->l[1], a, kw); } }
        else if (o->k == O_WRAP) r = call(o->l[0], args, kw);
        else if (o->k == O_CLASS) { Obj *n = mk(O_INST); n->cls = o; r = po(n); sh.push_back(r); Obj *c = classAttr(o, "__init__"); if (c) { std::vector<PV> a{r}; a.insert(a.end(), args.begin(), args.end()); call(c->at["__init__"], a, kw); } else if (isNamedTuple(o)) { size_t i = 0; for (auto &fn : *ntFields(o)) { if (i < args.size()) n->at[fn] = args[i++]; else { bool ok = false; for (auto &k : kw) if (k.n == fn) { n->at[fn] = k.v; ok = true; } if (!ok) raise("missing argument " + fn); } } } else if (!args.empty()) raise("constructor takes no arguments"); }
        else if (o->k == O_NAT) r = callNat(o->s, args, kw);
        else if (o->k == O_INST && o->cls) { Obj *c = classAttr(o->cls, "__call__"); if (!c) raise("object is not callable"); std::vector<PV> a{f}; a.insert(a.end(), args.begin(), args.end()); r = call(c->at["__call__"], a, kw); }
        else raise("object is not callable");
        sh.resize(base); return r;
    }
    bool isNamedTuple(Obj *o) { return o->at.count("_fields") > 0; }
    std::vector<std::string> ntTmp; std::vector<std::string> *ntFields(Obj *o) { ntTmp.clear(); for (auto &p : o->at["_fields"].o->l) ntTmp.push_back(p.o->s); return &ntTmp; }
    enum Flow : u8 { F_NEXT, F_RET, F_BRK, F_CONT };
    struct Pend { V cond; PV val; size_t logIdx; std::vector<Log> *log; };
    struct Act { Obj *fr; Obj *glob; Obj *clsd; PV ret; std::vector<Pend> pend; Obj *gen = nullptr; Obj *mod = nullptr; };
    PV callFunc(Obj *o, const std::vector<PV> &args, const std::vector<KW> &kw) {
        Nd *fn = o->fn; Obj *fr = mk(O_FRAME); fr->env = o->env; PV un; un.t = T_UNDEF; fr->l.assign((size_t)fn->n2, un); sh.push_back(po(fr));
        size_t np = fn->names.size();
        if (args.size() > np && !fn->n1) raise("too many arguments for " + fn->s);
        for (size_t i = 0; i < args.size() && i < np; i++) fr->l[i] = args[i];
        if (fn->n1) { Obj *t = mk(O_TUPLE); for (size_t i = np; i < args.size(); i++) t->l.push_back(args[i]); fr->l[np] = po(t); }
        for (auto &k : kw) { size_t i = 0; while (i < np && fn->names[i] != k.n) i++; if (i == np) raise("unexpected argument " + k.n); fr->l[i] = k.v; }
        for (size_t i = 0; i < np; i++) if (fr->l[i].t == T_UNDEF) { if (i < o->l.size() && o->l[i].t != T_UNDEF) fr->l[i] = o->l[i]; else raise("missing argument " + fn->names[i] + " of " + fn->s); }
        if (++depth > 200) stuck("recursion");
        reached.insert(fn->s); std::string sf = curFile, sn = curFunc; int sl = line; curFile = o->file; curFunc = fn->s;
        Act A; A.fr = fr; A.glob = o->cls; A.clsd = nullptr; if (fn->n3) { A.gen = mk(O_LIST); sh.push_back(po(A.gen)); }
        Flow f = block(fn->b, A); PV r = f == F_RET ? A.ret : pnone();
        if (A.gen) r = po(A.gen);
        while (!A.pend.empty()) { Pend p = A.pend.back(); A.pend.pop_back(); sh.push_back(r); closePend(p); r = sel(p.cond, p.val, r); sh.pop_back(); }
        depth--; curFile = sf; curFunc = sn; line = sl; return r;
    }
    // a branch returned under an abstract condition: what follows ran in a journal of its own; its effects are conditional
    void closePend(Pend &p) { std::vector<Log> *lg = p.log; logs.pop_back(); V nc = binop(::O_XOR, p.cond, vconst(1, 1)); hand(*lg); mergeElse(*lg, nc); delete lg; }
    void hand(std::vector<Log> &lg) { if (!logs.empty()) for (auto &x : lg) logs.back()->push_back(x); }      // an enclosing branch has to undo these too
    void writeLoc(const Log &l, const PV &v) { if (l.k == J_ELEM) { logElem(l.o, l.i); l.o->l[l.i] = v; } else if (l.k == J_ATTR) { logAttr(l.o, l.name); l.o->at[l.name] = v; } }
    // current state = state after a branch taken when c; fold with the state before it (recorded in log)
    void mergeElse(std::vector<Log> &lg, const V &c) {
        std::set<std::tuple<Obj *, int, size_t, std::string>> seen;
        for (auto &l : lg) {
            if (!seen.insert(std::make_tuple(l.o, (int)l.k, l.i, l.name)).second) continue;
            switch (l.k) {
            case J_ELEM: { if (l.i >= l.o->l.size()) stuck("an object changes size depending on data"); PV n = sel(c, l.o->l[l.i], l.old); logElem(l.o, l.i); l.o->l[l.i] = n; break; }
            case J_ATTR: { PV u; u.t = T_UNDEF; PV n = sel(c, l.o->at[l.name], l.had ? l.old : u); logAttr(l.o, l.name); l.o->at[l.name] = n; break; }
            case J_BYTE: { if (l.i >= l.o->by.size()) stuck("an object changes size depending on data"); Cell n = selCell(c, l.o->by[l.i], l.oc); logByte(l.o, l.i); l.o->by[l.i] = n; break; }
            case J_SNAP: mergeSnap(l.o, *l.snap, c); break;
            default: stuck("random bytes are drawn depending on data");
            }
        }
    }
    void mergeSnap(Obj *o, Obj &old, const V &c) {
        if (o->l.size() != old.l.size() || o->by.size() != old.by.size() || o->a != old.a) stuck("an object changes size depending on data");
        logSnap(o);
        for (size_t i = 0; i < o->l.size(); i++) o->l[i] = sel(c, o->l[i], old.l[i]);
        if (o->k == O_BITS) { for (size_t i = 0; i < o->by.size(); i++) { bool xn = o->xb.size() > i && o->xb[i], xo = old.xb.size() > i && old.xb[i]; if (!xn && !xo) { o->by[i] = selCell(c, o->by[i], old.by[i]); continue; } old.k = O_BITS; Bit *a = explode(o, i), *b = explode(&old, i); Bit cb = bitOf(c, 0); for (int k = 0; k < 8; k++) if (!beq(a[k], b[k])) a[k] = bmux(cb, a[k], b[k]); } }
        else for (size_t i = 0; i < o->by.size(); i++) o->by[i] = selCell(c, o->by[i], old.by[i]);
    }
    struct Saved { Log l; PV nv; Cell nc; std::shared_ptr<Obj> ns; bool has; };
    // undo a branch, remembering the values it produced
    std::vector<Saved> undo(std::vector<Log> &lg) {
        std::vector<Saved> out; std::set<std::tuple<Obj *, int, size_t, std::string>> seen;
        for (auto &l : lg) {
            if (!seen.insert(std::make_tuple(l.o, (int)l.k, l.i, l.name)).second) continue; Saved s; s.l = l; s.has = true;
            if (l.k == J_ELEM) { if (l.i < l.o->l.size()) s.nv = l.o->l[l.i]; else s.has = false; } else if (l.k == J_ATTR) s.nv = l.o->at[l.name]; else if (l.k == J_BYTE) s.nc = l.o->by[l.i];
            else if (l.k == J_SNAP) { s.ns = std::make_shared<Obj>(); s.ns->k = l.o->k; s.ns->l = l.o->l; s.ns->by = l.o->by; s.ns->a = l.o->a; for (auto &x : l.o->xb) { s.ns->xb.emplace_back(); if (x) { s.ns->xb.back().reset(new Bit[8]); std::copy(x.get(), x.get() + 8, s.ns->xb.back().get()); } } }
            out.push_back(std::move(s));
        }
        for (size_t k = lg.size(); k--;) { Log &l = lg[k]; switch (l.k) { case J_ELEM: if (l.i < l.o->l.size()) l.o->l[l.i] = l.old; break; case J_ATTR: if (l.had) l.o->at[l.name] = l.old; else l.o->at.erase(l.name); break; case J_BYTE: if (l.i < l.o->by.size()) l.o->by[l.i] = l.oc; break; case J_SNAP: l.o->l = l.snap->l; l.o->by = l.snap->by; l.o->s = l.snap->s; l.o->a = l.snap->a; l.o->xb.clear(); for (auto &x : l.snap->xb) { l.o->xb.emplace_back(); if (x) { l.o->xb.back().reset(new Bit[8]); std::copy(x.get(), x.get() + 8, l.o->xb.back().get()); } } break; default: break; } }
        return out;
    }
    void pin(const std::vector<Saved> &s) { for (auto &x : s) { if (x.l.k == J_ELEM || x.l.k == J_ATTR) sh.push_back(x.nv); if (x.l.k == J_BYTE && x.nc.id >= 2) { PV p; p.t = T_AINT; p.v = cellsToV(&x.nc, 1, false); sh.push_back(p); } } }
    // analyse both sides of an abstract branch and join
    Flow fork(const V &c, std::function<Flow()> th, std::function<Flow()> el, Act &A) {
        joins++; u64 pos0 = rndPos; size_t base = sh.size(); { PV p; p.t = T_AINT; p.v = vzext(c, 64); sh.push_back(p); }
        size_t np = A.pend.size(); int gcl = noGC; noGC++;
        auto *l1 = new std::vector<Log>; logs.push_back(l1); Flow f1 = th(); PV r1 = A.ret;
        if (A.pend.size() != np) stuck("nested conditional return"); logs.pop_back();
        if (rndPos != pos0) stuck("random bytes are drawn depending on data");
        auto s1 = undo(*l1); delete l1;
        auto *l2 = new std::vector<Log>; logs.push_back(l2); Flow f2 = el(); PV r2 = A.ret; if (A.pend.size() != np) stuck("nested conditional return"); logs.pop_back();
        if (rndPos != pos0) stuck("random bytes are drawn depending on data");
        Flow out;
        if (f1 == f2 && (f1 == F_NEXT || f1 == F_RET)) {
            joinStates(c, s1, *l2); if (f1 == F_RET) A.ret = sel(c, r1, r2); out = f1;
        } else if (f1 == F_RET && f2 == F_NEXT) {
            // the other side goes on; only effects made before the return on this side have to be kept
            for (auto &s : s1) if (!(s.l.k == J_ELEM && s.l.o == A.fr)) stuck("conditional return after a change of shared data");
            A.pend.push_back({c, r1, 0, new std::vector<Log>}); for (auto &x : *l2) if (logs.size()) logs.back()->push_back(x); logs.push_back(A.pend.back().log); out = F_NEXT; pinPend(r1, c);
        } else if (f1 == F_NEXT && f2 == F_RET) {
            for (auto &l : *l2) if (!(l.k == J_ELEM && l.o == A.fr)) stuck("conditional return after a change of shared data");
            undo(*l2); for (auto &s : s1) { if (s.l.k == J_ELEM) { logElem(s.l.o, s.l.i); s.l.o->l[s.l.i] = s.nv; } else if (s.l.k == J_ATTR) { logAttr(s.l.o, s.l.name); s.l.o->at[s.l.name] = s.nv; } else if (s.l.k == J_BYTE) { logByte(s.l.o, s.l.i); s.l.o->by[s.l.i] = s.nc; } else stuck("conditional return after a change of shared data"); }
            V nc = binop(::O_XOR, c, vconst(1, 1)); A.pend.push_back({nc, r2, 0, new std::vector<Log>}); logs.push_back(A.pend.back().log); out = F_NEXT; pinPend(r2, nc);
        } else stuck("a loop is left depending on data");
        delete l2; noGC = gcl + (A.pend.size() > np ? 1 : 0); sh.resize(base); return out;
    }
    void pinPend(const PV &, const V &) {}
    void joinStates(const V &c, std::vector<Saved> &s1, std::vector<Log> &l2) {
        hand(l2);
        std::set<std::tuple<Obj *, int, size_t, std::string>> done;
        for (auto &s : s1) {
            auto key = std::make_tuple(s.l.o, (int)s.l.k, s.l.i, s.l.name); done.insert(key);
            switch (s.l.k) {
            case J_ELEM: { if (!s.has || s.l.i >= s.l.o->l.size()) stuck("an object changes size depending on data"); PV n = sel(c, s.nv, s.l.o->l[s.l.i]); logElem(s.l.o, s.l.i); s.l.o->l[s.l.i] = n; break; }
            case J_ATTR: { PV u; u.t = T_UNDEF; auto it = s.l.o->at.find(s.l.name); PV n = sel(c, s.nv, it == s.l.o->at.end() ? u : it->second); logAttr(s.l.o, s.l.name); s.l.o->at[s.l.name] = n; break; }
            case J_BYTE: { Cell n = selCell(c, s.nc, s.l.o->by[s.l.i]); logByte(s.l.o, s.l.i); s.l.o->by[s.l.i] = n; break; }
            case J_SNAP: { V nc = binop(::O_XOR, c, vconst(1, 1)); mergeSnap(s.l.o, *s.ns, nc); break; }
            default: stuck("branch");
            }
        }
        std::vector<Log> rest; for (auto &l : l2) if (!done.count(std::make_tuple(l.o, (int)l.k, l.i, l.name))) rest.push_back(l);
        mergeElse(rest, binop(::O_XOR, c, vconst(1, 1)));
    }
    // -------------------------------------------------------- statements
    int noGC = 0;
    void gc(bool force = false) {
        if (noGC || (!force && polyLive() <= lastGC + 1500000 && heapSinceGC < 4000000)) return;
        // objects
        std::vector<Obj *> w; auto push = [&](Obj *o) { if (o && !o->mark) { o->mark = 1; w.push_back(o); } }; auto pv = [&](const PV &p) { if (p.t == T_OBJ) push(p.o); };
        for (auto &p : sh) pv(p); for (auto &m : modules) push(m.second); for (auto o : roots) push(o);
        while (!w.empty()) { Obj *o = w.back(); w.pop_back(); for (auto &p : o->l) pv(p); for (auto &a : o->at) pv(a.second); push(o->env); push(o->cls); }
        size_t k = 0; for (size_t i = 0; i < heap.size(); i++) if (heap[i]->mark) { heap[i]->mark = 0; heap[k++] = heap[i]; } else delete heap[i];
        heap.resize(k); heapSinceGC = 0;
        polyGC([&](std::function<void(u32)> m) {
            auto cell = [&](const Cell &c) { if (c.id >= 2) m(c.id); }; auto val = [&](const PV &p) { if (p.t == T_AINT && p.v.k == K_NODE) m(p.v.a); };
            for (auto &p : sh) val(p); for (Obj *o : heap) { for (auto &p : o->l) val(p); for (auto &a : o->at) val(a.second); for (auto &c : o->by) cell(c); }
            if (extraRoots) extraRoots(m); });
        lastGC = polyLive();
    }
    std::vector<Obj *> roots;
    Flow block(std::vector<Nd *> &b, Act &A) { for (Nd *s : b) { Flow f = stmt(s, A); if (f != F_NEXT) return f; } return F_NEXT; }
    void store(Nd *t, const PV &v, Act &A) {
        if (v.t == T_UNDEF) raise("variable used before it is set");
        switch (t->k) {
        case E_NAME: switch (t->sc) { case 'L': logElem(A.fr, (size_t)t->slot); A.fr->l[(size_t)t->slot] = v; return; case 'U': { Obj *f = A.fr; for (int i = 0; i < t->depth; i++) f = f->env; logElem(f, (size_t)t->slot); f->l[(size_t)t->slot] = v; return; } case 'C': A.clsd->at[t->s] = v; return; default: logAttr(A.glob, t->s); A.glob->at[t->s] = v; return; }
        case E_TUPLE: { std::vector<PV> it = items(v); if (it.size() != t->a.size()) raise("unpacking a sequence of the wrong length"); for (size_t i = 0; i < it.size(); i++) store(t->a[i], it[i], A); return; }
        case E_ATTR: { PV o = ev(t->a[0], A); setAttr(o, t->s, v); return; }
        case E_SUB: { size_t b = sh.size(); sh.push_back(v); PV o = ev(t->a[0], A); sh.push_back(o); PV i = ev(t->a[1], A); setItem(o, i, v); sh.resize(b); return; }
        case E_SLICE: { size_t b = sh.size(); sh.push_back(v); PV o = ev(t->a[0], A); sh.push_back(o); PV x = ev(t->a[1], A), y = ev(t->a[2], A), z = ev(t->a[3], A); setSlice(o, x, y, z, v); sh.resize(b); return; }
        default: unsup("assignment target");
        }
    }
    Flow stmt(Nd *n, Act &A) {
        line = n->line; steps++;
        switch (n->k) {
        case S_EXPR: ev(n->a[0], A); return F_NEXT;
        case S_ASSIGN: { PV v = ev(n->b[0], A); size_t b = sh.size(); sh.push_back(v); for (Nd *t : n->a) store(t, v, A); sh.resize(b); return F_NEXT; }
        case S_AUG: {
            Nd *t = n->a[0]; size_t b = sh.size();
            if (t->k == E_SUB) { PV o = ev(t->a[0], A); sh.push_back(o); PV i = ev(t->a[1], A); sh.push_back(i); PV old = getItem(o, i); sh.push_back(old); PV v = ev(n->b[0], A); line = n->line; PV r = augOp(n->op, old, v); setItem(o, i, r); }
            else if (t->k == E_ATTR) { PV o = ev(t->a[0], A); sh.push_back(o); PV old = getAttr(o, t->s); sh.push_back(old); PV v = ev(n->b[0], A); PV r = augOp(n->op, old, v); setAttr(o, t->s, r); }
            else { PV old = ev(t, A); sh.push_back(old); PV v = ev(n->b[0], A); line = n->line; PV r = augOp(n->op, old, v); store(t, r, A); }
            sh.resize(b); return F_NEXT; }
        case S_FOR: {
            PV it = ev(n->b[0], A); size_t b = sh.size(); sh.push_back(it); bool isRange = isO(it, O_RANGE); std::vector<PV> l; i64 cnt; size_t lb = sh.size();
            if (isRange) cnt = rangeLen(it.o); else { l = items(it); cnt = (i64)l.size(); if (!isO(it, O_LIST) && !isO(it, O_TUPLE)) for (auto &x : l) sh.push_back(x); else { Obj *keep = mk(O_TUPLE); keep->l = l; sh.push_back(po(keep)); } }
            (void)lb; bool brk = false;
            for (i64 i = 0; i < cnt; i++) { store(n->a[0], isRange ? pi(it.o->a + i * it.o->c) : l[(size_t)i], A); Flow f = block(n->c, A); if (f == F_RET) { sh.resize(b); return f; } if (f == F_BRK) { brk = true; break; } gc(); }
            sh.resize(b); if (!brk && n->n1) { for (size_t q = 0; q < (size_t)n->n1; q++) { Flow f = stmt(n->b[1 + q], A); if (f != F_NEXT) return f; } }
            return F_NEXT; }
        case S_WHILE: { u64 guard = 0; for (;;) { line = n->line; if (!truth(ev(n->b[0], A))) break; Flow f = block(n->c, A); if (f == F_RET) return f; if (f == F_BRK) return F_NEXT; if (++guard > 400000000) stuck("loop does not end"); gc(); } for (size_t q = 0; q < (size_t)n->n1; q++) { Flow f = stmt(n->b[1 + q], A); if (f != F_NEXT) return f; } return F_NEXT; }
        case S_IF: { V c = truthV(ev(n->a[0], A)); if (c.k == K_CONST) return block(c.b ? n->b : n->c, A); return fork(c, [&] { return block(n->b, A); }, [&] { return block(n->c, A); }, A); }
        case S_RETURN: A.ret = ev(n->a[0], A); return F_RET;
        case S_BREAK: return F_BRK; case S_CONTINUE: return F_CONT;
        case S_BLOCK: return block(n->b, A);
        case S_BRKIF: { V c = truthV(ev(n->a[0], A)); return c.k == K_CONST && c.b ? F_BRK : F_NEXT; }
        case S_ASSERT: { PV p = ev(n->a[0], A); line = n->line; V c = truthV(p); if (c.k != K_CONST) stuck("an assertion depends on data"); if (!c.b) raise("assertion fails"); return F_NEXT; }
        case S_RAISE: raise("an exception is raised");
        case S_DEF: { PV f = ev(n->b[0], A); for (size_t i = n->c.size(); i--;) { Nd *d = n->c[i]; if (d->k == E_NAME && (d->s == "staticmethod" || d->s == "classmethod" || d->s == "property")) { Obj *w = mk(O_WRAP); w->s = d->s == "staticmethod" ? "static" : d->s == "classmethod" ? "class" : "property"; w->l = {f}; f = po(w); } else if (d->k == E_ATTR || (d->k == E_NAME)) { PV dv = ev(d, A); if (isO(dv, O_NAT)) continue; f = call(dv, {f}, {}); } else continue; } store(n->a[0], f, A); return F_NEXT; }
        case S_CLASS: {
            Obj *c = mk(O_CLASS); c->s = n->s; size_t b = sh.size(); sh.push_back(po(c)); for (Nd *x : n->b) c->l.push_back(ev(x, A));
            Act B; B.fr = mk(O_FRAME); B.fr->env = A.fr; PV un; un.t = T_UNDEF; B.fr->l.assign((size_t)n->n1 + 1, un); sh.push_back(po(B.fr)); B.glob = A.glob; B.clsd = c; block(n->c, B); sh.resize(b);
            store(n->a[0], po(c), A); return F_NEXT; }
        case S_IMPORT: for (size_t i = 0; i < n->a.size(); i++) { std::string m = n->names[i]; if (!n->ops[i]) m = m.substr(0, m.find('.')); store(n->a[i], importMod(m), A); } return F_NEXT;
        case S_FROM: { PV m = importMod(n->s); for (size_t i = 0; i < n->a.size(); i++) store(n->a[i], getAttr(m, n->names[i]), A); return F_NEXT; }
        case S_TRY: { Flow f = block(n->a, A); if (f == F_NEXT) f = block(n->b, A); Flow g = block(n->c, A); return g != F_NEXT ? g : f; }
        case S_WITH: unsup("with statement");
        default: unsup("statement");
        }
    }
    PV augOp(u8 op, const PV &x, const PV &y) {
        if (op == P_ADD && x.t == T_OBJ) {
            if (x.o->k == O_LIST) { logSnap(x.o); auto it = items(y); x.o->l.insert(x.o->l.end(), it.begin(), it.end()); return x; }
            if (x.o->k == O_BARR && y.t == T_OBJ && (y.o->k == O_BYTES || y.o->k == O_BARR)) { logSnap(x.o); Bytes add = y.o->by; x.o->by.insert(x.o->by.end(), add.begin(), add.end()); return x; }
            if (x.o->k == O_BARR) { logSnap(x.o); for (auto &p : items(y)) x.o->by.push_back(toByte(p)); return x; }
            if (x.o->k == O_BITS && y.t == T_OBJ) { bitAppend(x.o, y.o); return x; }
        }
        return bin(op, x, y);
    }
    PV importMod(const std::string &m) {
        auto it = modules.find(m); if (it != modules.end()) return po(it->second);
        if (modTree.count(m)) return po(loadModule(m));
        Obj *o = mk(O_MOD); o->s = m; modules[m] = o; return po(o);
    }
    Obj *loadModule(const std::string &m) {
        Obj *o = mk(O_MOD); o->s = m; o->a = 1; modules[m] = o; Nd *t = modTree[m]; std::string sf = curFile, sn = curFunc; curFile = "python3/" + m + ".py"; curFunc = "<module>";
        Act A; A.fr = mk(O_FRAME); PV un; un.t = T_UNDEF; A.fr->l.assign((size_t)t->n1 + 1, un); sh.push_back(po(A.fr)); A.glob = o; A.clsd = nullptr; block(t->b, A); curFile = sf; curFunc = sn; return o;
    }
    // -------------------------------------------------------- expressions
    PV lookupGlobal(Nd *n, Act &A) { auto it = A.glob->at.find(n->s); if (it != A.glob->at.end()) return it->second; return pnat(n->s); }
    PV ev(Nd *n, Act &A) {
        switch (n->k) {
        case E_NONE: return pnone(); case E_BOOL: return pb(n->i); case E_INT: if (n->n1) stuck("large integer constant"); return pi(n->i); case E_FLOAT: return pf(n->d);
        case E_STR: return pstr(n->s);
        case E_BYTES: { Bytes b; for (char c : n->s) b.push_back(Cell{CELL_CONST, (u32)(u8)c}); return pbytes(b); }
        case E_NAME: {
            switch (n->sc) {
            case 'L': { const PV &p = A.fr->l[(size_t)n->slot]; if (p.t == T_UNDEF) { line = n->line; raise("variable used before it is set"); } return p; }
            case 'U': { Obj *f = A.fr; for (int i = 0; i < n->depth; i++) f = f->env; const PV &p = f->l[(size_t)n->slot]; if (p.t == T_UNDEF) raise("variable used before it is set"); return p; }
            case 'C': { auto it = A.clsd->at.find(n->s); if (it != A.clsd->at.end()) return it->second; return lookupGlobal(n, A); }
            default: return lookupGlobal(n, A);
            } }
        case E_BIN: { PV x = ev(n->a[0], A); if (n->a[1]->k != E_INT && n->a[1]->k != E_NAME) { sh.push_back(x); PV y = ev(n->a[1], A); sh.pop_back(); line = n->line; return bin(n->op, x, y); } PV y = ev(n->a[1], A); line = n->line; return bin(n->op, x, y); }
        case E_UN: {
            PV x = ev(n->a[0], A); line = n->line;
            switch (n->op) {
            case 0: { V c = truthV(x); return c.k == K_CONST ? pb(!c.b) : abit(binop(::O_XOR, c, vconst(1, 1))); }
            case 1: if (x.t == T_FLOAT) return pf(-x.d); return bin(P_SUB, pi(0), x);
            case 2: return x;
            default: if (x.t == T_INT || x.t == T_BOOL) return pi(~x.i); if (x.t != T_AINT) raise("type error"); { PV e = exact(x); return aint(binop(::O_XOR, e.v, vconst(64, ~0ull)), ~e.hi, ~e.lo); }
            } }
        case E_AND: case E_OR: {
            PV acc = ev(n->a[0], A);
            for (size_t i = 1; i < n->a.size(); i++) {
                V c = truthV(acc); if (c.k == K_CONST) { if ((n->k == E_AND) != (c.b != 0)) return acc; acc = ev(n->a[i], A); continue; }
                sh.push_back(acc); PV y = ev(n->a[i], A); sh.pop_back(); acc = n->k == E_AND ? sel(c, y, acc) : sel(c, acc, y);
            }
            return acc; }
        case E_CMP: {
            PV x = ev(n->a[0], A); V acc = vconst(1, 1);
            for (size_t i = 0; i < n->ops.size(); i++) { sh.push_back(x); PV y = ev(n->a[i + 1], A); sh.pop_back(); line = n->line; V c = cmp(n->ops[i], x, y); acc = binop(::O_AND, acc, c); if (acc.k == K_CONST && !acc.b) break; x = y; }
            return acc.k == K_CONST ? pb(acc.b) : abit(acc); }
        case E_IFEXP: { V c = truthV(ev(n->a[0], A)); if (c.k == K_CONST) return ev(n->a[c.b ? 1 : 2], A); size_t b = sh.size(); PV cp; cp.t = T_AINT; cp.v = vzext(c, 64); sh.push_back(cp); PV x = ev(n->a[1], A); sh.push_back(x); PV y = ev(n->a[2], A); sh.resize(b); joins++; return sel(c, x, y); }
        case E_ATTR: { PV o = ev(n->a[0], A); line = n->line; return getAttr(o, n->s); }
        case E_SUB: { PV o = ev(n->a[0], A); if (n->a[1]->k == E_NAME || n->a[1]->k == E_INT) { PV i = ev(n->a[1], A); line = n->line; return getItem(o, i); } sh.push_back(o); PV i = ev(n->a[1], A); sh.pop_back(); line = n->line; return getItem(o, i); }
        case E_SLICE: { PV o = ev(n->a[0], A); sh.push_back(o); PV x = ev(n->a[1], A), y = ev(n->a[2], A), z = ev(n->a[3], A); sh.pop_back(); line = n->line; if (o.t != T_OBJ) raise("not subscriptable"); return getSlice(o, x, y, z); }
        case E_CALL: {
            size_t b = sh.size(); PV f = ev(n->a[0], A); sh.push_back(f); std::vector<PV> args; std::vector<KW> kw;
            for (Nd *x : n->b) { if (x->k == E_STAR) { for (auto &p : items(ev(x->a[0], A))) { args.push_back(p); sh.push_back(p); } } else { PV p = ev(x, A); args.push_back(p); sh.push_back(p); } }
            for (size_t i = 0; i < n->c.size(); i++) { PV p = ev(n->c[i], A); kw.push_back({n->names[i], p}); sh.push_back(p); }
            line = n->line; PV r = call(f, args, kw); sh.resize(b); line = n->line; return r; }
        case E_TUPLE: case E_LIST: { Obj *o = mk(n->k == E_TUPLE ? O_TUPLE : O_LIST); sh.push_back(po(o)); for (Nd *x : n->a) { if (x->k == E_STAR) { auto it = items(ev(x->a[0], A)); o->l.insert(o->l.end(), it.begin(), it.end()); } else { PV p = ev(x, A); o->l.push_back(p); } } sh.pop_back(); return po(o); }
        case E_DICT: { Obj *o = mk(O_DICT); sh.push_back(po(o)); for (size_t i = 0; i < n->a.size(); i++) { PV k = ev(n->a[i], A); sh.push_back(k); PV v = ev(n->b[i], A); sh.pop_back(); o->l.push_back(k); o->l.push_back(v); } sh.pop_back(); return po(o); }
        case E_LISTCOMP: case E_DICTCOMP: { Obj *o = mk(n->k == E_LISTCOMP ? O_LIST : O_DICT); sh.push_back(po(o)); comp(n, 0, o, A); sh.pop_back(); return po(o); }
        case E_FUNC: { Obj *f = mk(O_FUNC); f->fn = n; f->env = A.fr; f->cls = A.glob; f->file = curFile; sh.push_back(po(f)); PV un; un.t = T_UNDEF; for (Nd *d : n->a) { PV p = d ? ev(d, A) : un; f->l.push_back(p); } sh.pop_back(); return po(f); }
        case E_JOINED: { std::string s; for (Nd *x : n->a) s += show(ev(x, A)); return pstr(s); }
        case E_WALRUS: { PV v = ev(n->b[0], A); store(n->a[0], v, A); return v; }
        case E_YIELD: { PV v = ev(n->a[0], A); if (!A.gen) unsup("yield"); logSnap(A.gen); A.gen->l.push_back(v); return pnone(); }
        default: unsup("expression");
        }
    }
    void comp(Nd *n, size_t g, Obj *o, Act &A) {
        if (g == n->b.size() / 2) { if (n->k == E_LISTCOMP) { PV v = ev(n->a[0], A); if (v.t == T_UNDEF) raise("variable used before it is set"); o->l.push_back(v); } else { PV k = ev(n->a[0], A); sh.push_back(k); PV v = ev(n->a[1], A); sh.pop_back(); size_t at; if (dictGet(o, k, at)) o->l[at + 1] = v; else { o->l.push_back(k); o->l.push_back(v); } } return; }
        PV it = ev(n->b[2 * g + 1], A); size_t b = sh.size(); sh.push_back(it); bool isRange = isO(it, O_RANGE); std::vector<PV> l; i64 cnt = isRange ? rangeLen(it.o) : 0; if (!isRange) { l = items(it); cnt = (i64)l.size(); Obj *keep = mk(O_TUPLE); keep->l = l; sh.push_back(po(keep)); }
        Nd *ifs = n->c[g];
        for (i64 i = 0; i < cnt; i++) {
            store(n->b[2 * g], isRange ? pi(it.o->a + i * it.o->c) : l[(size_t)i], A); bool ok = true;
            for (Nd *f : ifs->a) { V c = truthV(ev(f, A)); if (c.k != K_CONST) stuck("a comprehension filter depends on data"); if (!c.b) { ok = false; break; } }
            if (ok) comp(n, g + 1, o, A);
            gc();
        }
        sh.resize(b);
    }
    // -------------------------------------------------------- library models
    Bytes bytesArg(const PV &p, const char *what) { if (isO(p, O_BYTES) || isO(p, O_BARR)) return p.o->by; raise(std::string(what) + " is not bytes"); }
    Bytes draw(u64 n) { if (n > 4096) stuck("random request"); Bytes b = streamBytes(rnd, (u32)rndPos, (u32)n); rndPos += n; return b; }
    Bytes toBytes(const PV &p) {
        if (p.t == T_INT || p.t == T_BOOL) { if (p.i < 0 || p.i > (1 << 24)) raise("bytes length"); return Bytes((size_t)p.i, Cell{CELL_CONST, 0}); }
        if (p.t == T_OBJ && (p.o->k == O_BYTES || p.o->k == O_BARR)) return p.o->by;
        if (p.t == T_OBJ && p.o->k == O_BITS) { return bitBytes(p.o); }
        if (p.t == T_AINT) stuck("length depends on data");
        Bytes r; for (auto &x : items(p)) r.push_back(toByte(x)); return r;
    }
    struct Fmt { bool be; std::vector<std::pair<char, int>> it; u64 size; };
    Fmt fmt(const PV &p) {
        if (!isO(p, O_STR)) { if (isO(p, O_BYTES)) {} raise("format"); } Fmt f; f.be = false; f.size = 0; const std::string &s = p.o->s; size_t i = 0; bool native = true;
        if (i < s.size() && strchr("<>=!@", s[i])) { native = s[i] == '@'; f.be = s[i] == '>' || s[i] == '!'; i++; }
        while (i < s.size()) { if (s[i] == ' ') { i++; continue; } int c = 0; bool has = false; while (i < s.size() && isdigit((u8)s[i])) { c = c * 10 + (s[i] - '0'); has = true; i++; } if (i >= s.size()) raise("format"); char k = s[i++]; int sz = strchr("bB?cx", k) ? 1 : strchr("hH", k) ? 2 : strchr("iIlLf", k) ? (native && strchr("lL", k) ? 8 : 4) : strchr("qQ", k) ? 8 : k == 's' ? 1 : 0; if (!sz) unsup("struct format"); int rep = has ? c : 1;
            if (native && sz > 1 && f.size % (u64)sz) f.size += (u64)sz - f.size % (u64)sz;
            if (k == 's') { f.it.push_back({'s', rep}); f.size += (u64)rep; } else for (int r = 0; r < rep; r++) { f.it.push_back({k, sz}); f.size += (u64)sz; } }
        return f;
    }
    PV unpackAt(const Fmt &f, const Bytes &b, u64 off) {
        Obj *t = mk(O_TUPLE); sh.push_back(po(t)); u64 o = off;
        for (auto &x : f.it) {
            if (x.first == 'x') { o++; continue; }
            if (x.first == 's') { Bytes q(b.begin() + (long)o, b.begin() + (long)o + x.second); o += (u64)x.second; t->l.push_back(pbytes(q)); continue; }
            if (x.second == 8) { V v = cellsToV(&b[o], 8, f.be); (void)v; stuck("64-bit field"); }
            V v = cellsToV(&b[o], (unsigned)x.second, f.be); o += (u64)x.second; bool sg = islower(x.first); int w = 8 * x.second; t->l.push_back(aint(sg ? vsext(v, 64) : vzext(v, 64), sg ? -(1ll << (w - 1)) : 0, sg ? (1ll << (w - 1)) - 1 : (1ll << w) - 1));
        }
        sh.pop_back(); return po(t);
    }
    Bytes packFmt(const Fmt &f, const std::vector<PV> &a, size_t at) {
        Bytes r;
        for (auto &x : f.it) { if (x.first == 'x') { r.push_back(Cell{CELL_CONST, 0}); continue; } if (at >= a.size()) raise("struct.pack: too few values"); if (x.first == 's') { Bytes q = bytesArg(a[at++], "value"); q.resize((size_t)x.second, Cell{CELL_CONST, 0}); r.insert(r.end(), q.begin(), q.end()); continue; } Cell c[8]; vToCells(intV(a[at++], 8u * (unsigned)x.second, islower(x.first)), c, (unsigned)x.second, f.be); r.insert(r.end(), c, c + x.second); }
        if (at != a.size()) raise("struct.pack: too many values");
        return r;
    }
    PV newInst(const std::string &cls) { Obj *o = mk(O_INST); o->s = cls; return po(o); }
    Bytes shake(int rate, const Bytes &in, u64 n) { hashCalls++; return spongeSpec(rate, 0x1f, in, n); }
    PV kwget(const std::vector<KW> &kw, const char *n, const PV &d) { for (auto &k : kw) if (k.n == n) return k.v; return d; }
    PV newBits(const std::vector<PV> &a, const std::vector<KW> &kw, const std::string &cls) {
        Obj *o = mk(O_BITS); o->s = cls; PV r = po(o); sh.push_back(r);
        PV len = kwget(kw, "length", pnone()), by = kwget(kw, "bytes", pnone()); PV src = a.size() ? a[0] : pnone(); if (a.size() > 1) unsup("bitstring constructor");
        for (auto &k : kw) if (k.n != "length" && k.n != "bytes" && k.n != "intle" && k.n != "uintle" && k.n != "int" && k.n != "uint" && k.n != "intbe" && k.n != "uintbe" && k.n != "auto") unsup("bitstring constructor argument " + k.n);
        for (const char *q : {"intle", "uintle", "int", "uint", "intbe", "uintbe"}) for (auto &k : kw) if (k.n == q) {
            i64 n = toInt(len, "length"); bool sg = q[0] == 'i', le = strstr(q, "le") != nullptr; if (n <= 0 || n > 48) stuck("bit field width"); V v = intV(k.v, (unsigned)n, sg);
            if (n % 8 == 0) { Cell c[8]; vToCells(v, c, (unsigned)n / 8, !le); o->by.assign(c, c + n / 8); o->a = n; } else { if (le) raise("little-endian field is not whole bytes"); Bit b[64]; bitsOf(v, b); o->by.assign((size_t)(n + 7) / 8, Cell{CELL_CONST, 0}); o->a = n; for (i64 i = 0; i < n; i++) explode(o, (size_t)i / 8)[i % 8] = b[n - 1 - i]; }
            sh.pop_back(); return r; }
        if (by.t != T_NONE) src = by; PV au = kwget(kw, "auto", pnone()); if (au.t != T_NONE) src = au;
        if (src.t == T_INT) len = src;
        else if (src.t == T_OBJ && (src.o->k == O_BYTES || src.o->k == O_BARR)) { o->by = src.o->by; o->a = (i64)o->by.size() * 8; sh.pop_back(); return r; }
        else if (src.t == T_OBJ && src.o->k == O_BITS) { bitAppend(o, src.o); sh.pop_back(); return r; }
        else if (src.t == T_OBJ && (src.o->k == O_LIST || src.o->k == O_TUPLE)) { for (auto &x : src.o->l) { if (o->a % 8 == 0) o->by.push_back(Cell{CELL_CONST, 0}); o->a++; explode(o, (size_t)(o->a - 1) / 8)[(o->a - 1) % 8] = truthBit(x); } sh.pop_back(); return r; }
        else if (isO(src, O_STR) && (src.o->s.compare(0, 2, "0b") == 0 || src.o->s.compare(0, 2, "0x") == 0)) {
            const std::string &t = src.o->s; int per = t[1] == 'b' ? 1 : 4;
            for (size_t i = 2; i < t.size(); i++) { int d = t[i] <= '9' ? t[i] - '0' : (t[i] | 32) - 'a' + 10; if (d < 0 || d >= 1 << per) unsup("bitstring constructor"); for (int q = per - 1; q >= 0; q--) { if (o->a % 8 == 0) o->by.push_back(Cell{CELL_CONST, 0}); o->a++; explode(o, (size_t)(o->a - 1) / 8)[(o->a - 1) % 8] = bconst(d >> q & 1); } }
            sh.pop_back(); return r; }
        else if (src.t != T_NONE) unsup("bitstring constructor");
        if (len.t != T_NONE) { i64 n = toInt(len, "length"); if (n < 0 || n > (1 << 26)) raise("length"); o->a = n; o->by.assign((size_t)(n + 7) / 8, Cell{CELL_CONST, 0}); }
        sh.pop_back(); return r;
    }
    PV toIntObj(const PV &x) {
        if (x.t == T_INT) return x; if (x.t == T_BOOL) return pi(x.i); if (x.t == T_FLOAT) return pi((i64)x.d);
        if (x.t == T_AINT) { if (x.s >= 0) return x; PV e = x; if (e.lo >= 0) return shrA(e, 0); /* truncation: floor + 1 for negative fractions */ stuck("truncation of a negative fraction"); }
        if (isO(x, O_STR)) return pi(strtoll(x.o->s.c_str(), nullptr, 10));
        raise("int() of this object");
    }
    PV roundA(const PV &x) {              // Python's round: to nearest, ties to even
        if (x.t == T_FLOAT) return pi((i64)std::nearbyint(x.d)); if (x.t != T_AINT) return x.t == T_BOOL ? pi(x.i) : x; if (x.s >= 0) return x;
        PV e = x; if (e.m != 64) { e.v = exactV(e); e.m = 64; } unsigned k = (unsigned)-e.s; V ip = binop(::O_ASHR, e.v, vconst(64, k)); Bit b[64]; bitsOf(e.v, b); Bit low = bconst(0); for (unsigned i = 0; i + 1 < k; i++) low = bor(low, b[i]); Bit up = band(b[k - 1], bor(low, b[k])); V inc = vzext(mkBits(&up, 1), 64);
        return aint(binop(::O_ADD, ip, inc), e.lo >> k, (e.hi >> k) + 1);
    }
    PV minmax(std::vector<PV> l, bool mx) { if (l.empty()) raise("empty sequence"); PV r = l[0]; for (size_t i = 1; i < l.size(); i++) { V c = cmp(mx ? C_GT : C_LT, l[i], r); r = sel(c, l[i], r); } return r; }
    PV sum(const std::vector<PV> &l, PV acc) { for (auto &x : l) acc = bin(P_ADD, acc, x); return acc; }
    PV mklist(const std::vector<PV> &l, OK k = O_LIST) { Obj *o = mk(k); o->l = l; return po(o); }
    PV callNat(const std::string &n0, const std::vector<PV> &a, const std::vector<KW> &kw) {
        std::string n = n0; if (n.compare(0, 9, "builtins.") == 0) n = n.substr(9);
        auto need = [&](size_t lo, size_t hi) { if (a.size() < lo || a.size() > hi) raise("wrong number of arguments for " + n); };
        // ---- builtins
        if (n == "len") { need(1, 1); return pi(lenOf(a[0])); }
        if (n == "range") { need(1, 3); Obj *o = mk(O_RANGE); o->a = a.size() > 1 ? toInt(a[0], "range bound") : 0; o->b = toInt(a.size() > 1 ? a[1] : a[0], "range bound"); o->c = a.size() > 2 ? toInt(a[2]) : 1; if (!o->c) raise("range step"); return po(o); }
        if (n == "int") { need(0, 2); if (a.empty()) return pi(0); if (a.size() == 2 && isO(a[0], O_STR)) return pi(strtoll(a[0].o->s.c_str(), nullptr, (int)toInt(a[1]))); return toIntObj(a[0]); }
        if (n == "bool") { need(0, 1); if (a.empty()) return pb(false); V c = truthV(a[0]); return c.k == K_CONST ? pb(c.b) : abit(c); }
        if (n == "float") { need(1, 1); return a[0].t == T_FLOAT ? a[0] : a[0].t == T_AINT ? a[0] : pf((double)toInt(a[0])); }
        if (n == "bytes" || n == "bytearray") { need(0, 2); Obj *o = mk(n == "bytes" ? O_BYTES : O_BARR); if (a.size() == 2 && isO(a[0], O_STR)) { for (char c : a[0].o->s) o->by.push_back(Cell{CELL_CONST, (u32)(u8)c}); return po(o); } if (a.size()) { sh.push_back(po(o)); o->by = toBytes(a[0]); sh.pop_back(); } return po(o); }
        if (n == "memoryview") { need(1, 1); return a[0]; }
        if (n == "list" || n == "tuple") { need(0, 1); Obj *o = mk(n == "list" ? O_LIST : O_TUPLE); if (a.size()) { sh.push_back(po(o)); o->l = items(a[0]); sh.pop_back(); } return po(o); }
        if (n == "dict") { Obj *o = mk(O_DICT); for (auto &k : kw) { o->l.push_back(pstr(k.n)); o->l.push_back(k.v); } if (a.size()) { if (isO(a[0], O_DICT)) o->l.insert(o->l.begin(), a[0].o->l.begin(), a[0].o->l.end()); else for (auto &p : items(a[0])) { auto q = items(p); o->l.push_back(q[0]); o->l.push_back(q[1]); } } return po(o); }
        if (n == "sum") { need(1, 2); return sum(items(a[0]), a.size() > 1 ? a[1] : kwget(kw, "start", pi(0))); }
        if (n == "abs") { need(1, 1); if (a[0].t == T_FLOAT) return pf(std::fabs(a[0].d)); if (a[0].t != T_AINT) return pi(std::llabs(a[0].i)); return sel(cmp(C_LT, a[0], pi(0)), bin(P_SUB, pi(0), a[0]), a[0]); }
        if (n == "min" || n == "max") return minmax(a.size() == 1 ? items(a[0]) : a, n == "max");
        if (n == "pow") { need(2, 3); PV r = bin(P_POW, a[0], a[1]); return a.size() > 2 ? bin(P_MOD, r, a[2]) : r; }
        if (n == "divmod") { need(2, 2); return mklist({bin(P_FDIV, a[0], a[1]), bin(P_MOD, a[0], a[1])}, O_TUPLE); }
        if (n == "round") { need(1, 1); return roundA(a[0]); }
        if (n == "math.floor") { need(1, 1); if (a[0].t == T_FLOAT) return pi((i64)std::floor(a[0].d)); if (a[0].t == T_AINT && a[0].s < 0) return shrA(a[0], 0); return a[0]; }
        if (n == "math.ceil") { need(1, 1); if (a[0].t == T_FLOAT) return pi((i64)std::ceil(a[0].d)); if (a[0].t == T_AINT && a[0].s < 0) return bin(P_SUB, pi(0), shrA(bin(P_SUB, pi(0), a[0]), 0)); return a[0]; }
        if (n == "math.log2") { need(1, 1); return pf(std::log2((double)toInt(a[0]))); }
        if (n == "zip") { std::vector<std::vector<PV>> c; size_t m = (size_t)-1; for (auto &x : a) { c.push_back(items(x)); m = std::min(m, c.back().size()); } Obj *o = mk(O_LIST); sh.push_back(po(o)); if (a.size()) for (size_t i = 0; i < m; i++) { Obj *t = mk(O_TUPLE); for (auto &x : c) t->l.push_back(x[i]); o->l.push_back(po(t)); } sh.pop_back(); return po(o); }
        if (n == "enumerate") { need(1, 2); i64 st = a.size() > 1 ? toInt(a[1]) : toInt(kwget(kw, "start", pi(0))); auto l = items(a[0]); Obj *o = mk(O_LIST); for (auto &x : l) { Obj *t = mk(O_TUPLE); t->l = {pi(st++), x}; o->l.push_back(po(t)); } return po(o); }
        if (n == "map") { if (a.size() < 2) raise("map"); std::vector<std::vector<PV>> c; size_t m = (size_t)-1; for (size_t i = 1; i < a.size(); i++) { c.push_back(items(a[i])); m = std::min(m, c.back().size()); } Obj *o = mk(O_LIST); sh.push_back(po(o)); for (size_t i = 0; i < m; i++) { std::vector<PV> q; for (auto &x : c) q.push_back(x[i]); PV r = call(a[0], q, {}); o->l.push_back(r); } sh.pop_back(); return po(o); }
        if (n == "reversed") { need(1, 1); auto l = items(a[0]); std::reverse(l.begin(), l.end()); return mklist(l); }
        if (n == "any" || n == "all") { need(1, 1); bool any = n == "any"; V acc = vconst(1, any ? 0 : 1); for (auto &x : items(a[0])) acc = binop(any ? ::O_OR : ::O_AND, acc, truthV(x)); return acc.k == K_CONST ? pb(acc.b) : abit(acc); }
        if (n == "iter" || n == "sorted") { need(1, 1); if (n == "sorted") unsup("sorted"); return mklist(items(a[0])); }
        if (n == "functools.reduce") { need(2, 3); auto l = items(a[1]); size_t i = 0; PV acc; if (a.size() > 2) acc = a[2]; else { if (l.empty()) raise("reduce of an empty sequence"); acc = l[i++]; } for (; i < l.size(); i++) { sh.push_back(acc); acc = call(a[0], {acc, l[i]}, {}); sh.pop_back(); } return acc; }
        if (n == "itertools.chain") { Obj *o = mk(O_LIST); for (auto &x : a) { auto l = items(x); o->l.insert(o->l.end(), l.begin(), l.end()); } return po(o); }
        if (n == "itertools.chain.from_iterable") { need(1, 1); Obj *o = mk(O_LIST); sh.push_back(po(o)); for (auto &x : items(a[0])) { auto l = items(x); o->l.insert(o->l.end(), l.begin(), l.end()); } sh.pop_back(); return po(o); }
        if (n == "itertools.product") { std::vector<std::vector<PV>> c; for (auto &x : a) c.push_back(items(x)); Obj *o = mk(O_LIST); sh.push_back(po(o)); std::vector<size_t> ix(c.size(), 0); for (auto &x : c) if (x.empty()) { sh.pop_back(); return po(o); } for (;;) { Obj *t = mk(O_TUPLE); for (size_t i = 0; i < c.size(); i++) t->l.push_back(c[i][ix[i]]); o->l.push_back(po(t)); size_t k = c.size(); while (k-- > 0) { if (++ix[k] < c[k].size()) break; ix[k] = 0; } if (k == (size_t)-1) break; } sh.pop_back(); return po(o); }
        if (n == "itertools.accumulate") { need(1, 2); auto l = items(a[0]); Obj *o = mk(O_LIST); sh.push_back(po(o)); PV acc; for (size_t i = 0; i < l.size(); i++) { acc = i ? (a.size() > 1 ? call(a[1], {acc, l[i]}, {}) : bin(P_ADD, acc, l[i])) : l[0]; o->l.push_back(acc); } sh.pop_back(); return po(o); }
        static const std::map<std::string, u8> ops = {{"operator.xor", P_XOR}, {"operator.or_", P_OR}, {"operator.and_", P_AND}, {"operator.add", P_ADD}, {"operator.mul", P_MUL}, {"operator.sub", P_SUB}};
        { auto it = ops.find(n); if (it != ops.end()) { need(2, 2); return bin(it->second, a[0], a[1]); } }
        if (n == "print" || n == "warnings.warn" || n == "warnings.simplefilter" || n == "warnings.filterwarnings") return pnone();
        if (n == "isinstance") { need(2, 2); std::vector<PV> cl = isO(a[1], O_TUPLE) ? a[1].o->l : std::vector<PV>{a[1]}; for (auto &c : cl) if (isInst(a[0], c)) return pb(true); return pb(false); }
        if (n == "type") { need(1, 1); if (isO(a[0], O_INST) && a[0].o->cls) return po(a[0].o->cls); return pnat(typeName(a[0])); }
        if (n == "getattr") { need(2, 3); if (a.size() == 3 && isO(a[0], O_INST) && a[0].o->cls && !a[0].o->at.count(a[1].o->s) && !classAttr(a[0].o->cls, a[1].o->s)) return a[2]; return getAttr(a[0], a[1].o->s); }
        if (n == "setattr") { need(3, 3); setAttr(a[0], a[1].o->s, a[2]); return pnone(); }
        if (n == "hasattr") { need(2, 2); return pb(isO(a[0], O_INST) && (a[0].o->at.count(a[1].o->s) || (a[0].o->cls && classAttr(a[0].o->cls, a[1].o->s)))); }
        if (n == "str" || n == "repr") { need(0, 1); return pstr(a.empty() ? "" : show(a[0])); }
        if (n == "ord") { need(1, 1); if (isO(a[0], O_BYTES) && a[0].o->by.size() == 1) return byteAt(a[0].o->by[0]); if (isO(a[0], O_STR) && a[0].o->s.size() == 1) return pi((u8)a[0].o->s[0]); raise("ord"); }
        if (n == "id" || n == "object") return newInst("object");
        if (n == "super") unsup("super()");
        if (n == "collections.namedtuple" || n == "namedtuple") { need(2, 2); Obj *c = mk(O_CLASS); c->s = a[0].o->s; Obj *t = mk(O_TUPLE); if (isO(a[1], O_STR)) { std::string s = a[1].o->s; for (char &x : s) if (x == ',') x = ' '; std::istringstream is(s); std::string w; while (is >> w) t->l.push_back(pstr(w)); } else t->l = items(a[1]); c->at["_fields"] = po(t); return po(c); }
        if (n == "int.from_bytes") { need(1, 3); Bytes b = toBytes(a[0]); PV od = a.size() > 1 ? a[1] : kwget(kw, "byteorder", pstr("big")); bool be = od.o->s == "big", sg = kwget(kw, "signed", pb(false)).i; if (b.empty()) return pi(0); if (b.size() > 7) stuck("wide integer"); V v = cellsToV(b.data(), (unsigned)b.size(), be); int w = 8 * (int)b.size(); return aint(sg ? vsext(v, 64) : vzext(v, 64), sg ? -(1ll << (w - 1)) : 0, sg ? (1ll << (w - 1)) - 1 : (1ll << w) - 1); }
        if (n == "bytes.fromhex" || n == "bytearray.fromhex") { need(1, 1); Obj *o = mk(n[5] == '.' ? O_BYTES : O_BARR); std::string h; for (char c : a[0].o->s) if (isxdigit((u8)c)) h += c; for (size_t i = 0; i + 1 < h.size(); i += 2) o->by.push_back(Cell{CELL_CONST, (u32)strtoul(h.substr(i, 2).c_str(), nullptr, 16)}); return po(o); }
        // ---- struct
        if (n == "struct.pack_into") { if (a.size() < 3) raise("struct.pack_into"); Fmt f = fmt(a[0]); Bytes b = packFmt(f, a, 3); i64 off = toInt(a[2]); if (!isO(a[1], O_BARR)) raise("pack_into needs a bytearray"); if (off < 0 || (u64)off + b.size() > a[1].o->by.size()) raise("pack_into outside the buffer"); for (size_t i = 0; i < b.size(); i++) { logByte(a[1].o, (size_t)off + i); a[1].o->by[(size_t)off + i] = b[i]; } return pnone(); }
        if (n == "struct.pack") { if (a.empty()) raise("struct.pack"); return pbytes(packFmt(fmt(a[0]), a, 1)); }
        if (n == "struct.unpack_from") { need(2, 3); Fmt f = fmt(a[0]); Bytes b = bytesArg(a[1], "buffer"); i64 off = a.size() > 2 ? toInt(a[2]) : toInt(kwget(kw, "offset", pi(0))); if (off < 0 || (u64)off + f.size > b.size()) raise("unpack_from outside the buffer"); return unpackAt(f, b, (u64)off); }
        if (n == "struct.unpack") { need(2, 2); Fmt f = fmt(a[0]); Bytes b = bytesArg(a[1], "buffer"); if (b.size() != f.size) raise("unpack: wrong buffer size"); return unpackAt(f, b, 0); }
        if (n == "struct.iter_unpack") { need(2, 2); Fmt f = fmt(a[0]); Bytes b = bytesArg(a[1], "buffer"); if (!f.size || b.size() % f.size) raise("iter_unpack: wrong buffer size"); Obj *o = mk(O_LIST); sh.push_back(po(o)); for (u64 i = 0; i < b.size(); i += f.size) { PV t = unpackAt(f, b, i); o->l.push_back(t); } sh.pop_back(); return po(o); }
        if (n == "struct.calcsize") { need(1, 1); return pi((i64)fmt(a[0]).size); }
        // ---- randomness
        if (n == "secrets.randbits") { need(1, 1); i64 k = toInt(a[0]); if (k != 8) stuck("random request of other than 8 bits"); return byteAt(draw(1)[0]); }
        if (n == "secrets.token_bytes" || n == "os.urandom" || n == "random.randbytes" ) { need(1, 1); if (n[0] == 'r') raise("not a secure random source"); return pbytes(draw((u64)toInt(a[0]))); }
        if (n == "hmac.compare_digest" || n == "secrets.compare_digest") { need(2, 2); V e = eqV(a[0], a[1]); return e.k == K_CONST ? pb(e.b) : abit(e); }
        // ---- hashes and ciphers
        if (n == "default_backend" || n.find("default_backend") != std::string::npos) return newInst("backend");
        auto tail = [&](const char *s) { size_t L = strlen(s); return n.size() >= L && n.compare(n.size() - L, L, s) == 0 && (n.size() == L || n[n.size() - L - 1] == '.'); };
        if (tail("hashes.SHAKE128") || tail("hashes.SHAKE256") || n == "SHAKE128" || n == "SHAKE256") { PV p = newInst("shakealg"); p.o->a = n.find("128") != std::string::npos ? 168 : 136; p.o->b = toInt(a.size() ? a[0] : kwget(kw, "digest_size", pnone()), "digest length"); return p; }
        if (tail("hashes.Hash")) { PV alg = a.size() ? a[0] : kwget(kw, "algorithm", pnone()); if (!isO(alg, O_INST) || alg.o->s != "shakealg") unsup("hash algorithm"); PV p = newInst("hash"); p.o->a = alg.o->a; p.o->b = alg.o->b; return p; }
        if (n == "hashlib.shake_128" || n == "hashlib.shake_256") { PV p = newInst("hashlib"); p.o->a = n == "hashlib.shake_128" ? 168 : 136; if (a.size()) p.o->by = bytesArg(a[0], "message"); return p; }
        if (tail("algorithms.AES") || n == "AES") { need(1, 1); PV p = newInst("aesalg"); p.o->by = bytesArg(a[0], "key"); if (p.o->by.size() != 16) raise("AES key of the wrong length"); return p; }
        if (tail("modes.ECB")) return newInst("ecb");
        if (tail("ciphers.Cipher") || n == "Cipher") { if (a.size() < 2 && kw.empty()) raise("Cipher"); PV alg = a.size() ? a[0] : kwget(kw, "algorithm", pnone()), mode = a.size() > 1 ? a[1] : kwget(kw, "mode", pnone()); if (!isO(alg, O_INST) || alg.o->s != "aesalg" || !isO(mode, O_INST) || mode.o->s != "ecb") unsup("cipher"); PV p = newInst("cipher"); p.o->by = alg.o->by; return p; }
        // ---- bitstring
        if (tail("bitstring.BitArray") || tail("bitstring.Bits") || tail("bitstring.ConstBitStream") || tail("bitstring.BitStream")) return newBits(a, kw, n.substr(n.rfind('.') + 1));
        unsup("call of " + n);
    }
    std::string typeName(const PV &p) { switch (p.t) { case T_NONE: return "NoneType"; case T_BOOL: return "bool"; case T_INT: case T_AINT: return "int"; case T_FLOAT: return "float"; case T_OBJ: switch (p.o->k) { case O_STR: return "str"; case O_BYTES: return "bytes"; case O_BARR: return "bytearray"; case O_LIST: return "list"; case O_TUPLE: return "tuple"; case O_DICT: return "dict"; case O_RANGE: return "range"; case O_BITS: return "bitstring." + p.o->s; default: return p.o->s; } default: return "?"; } }
    bool isInst(const PV &v, const PV &c) { if (isO(c, O_CLASS)) { if (!isO(v, O_INST)) return false; Obj *k = v.o->cls; std::vector<Obj *> w; if (k) w.push_back(k); while (!w.empty()) { Obj *x = w.back(); w.pop_back(); if (x == c.o) return true; for (auto &b : x->l) if (isO(b, O_CLASS)) w.push_back(b.o); } return false; } if (!isO(c, O_NAT)) return false; std::string t = typeName(v); if (c.o->s == "int" && t == "bool") return true; return t == c.o->s; }
    PV callMethod(const PV &self, const std::string &n, const std::vector<PV> &a, const std::vector<KW> &kw) {
        auto need = [&](size_t lo, size_t hi) { if (a.size() < lo || a.size() > hi) raise("wrong number of arguments for " + n); };
        if (isIntLike(self)) {
            if (n == "to_bytes") { i64 len = toInt(a.size() ? a[0] : kwget(kw, "length", pi(1))); PV od = a.size() > 1 ? a[1] : kwget(kw, "byteorder", pstr("big")); bool sg = kwget(kw, "signed", pb(false)).i; if (len < 1 || len > 7) stuck("wide integer"); Cell c[8]; vToCells(intV(self, 8u * (unsigned)len, sg), c, (unsigned)len, od.o->s == "big"); return pbytes(Bytes(c, c + len)); }
            if (n == "bit_length" && self.t != T_AINT) { u64 x = (u64)std::llabs(self.i); return pi(x ? 64 - __builtin_clzll(x) : 0); }
            unsup("int." + n);
        }
        if (self.t != T_OBJ) unsup("method " + n);
        Obj *o = self.o;
        if (o->k == O_LIST) {
            if (n == "append") { need(1, 1); if (a[0].t == T_UNDEF) raise("variable used before it is set"); logSnap(o); o->l.push_back(a[0]); return pnone(); }
            if (n == "extend") { need(1, 1); auto l = items(a[0]); logSnap(o); o->l.insert(o->l.end(), l.begin(), l.end()); return pnone(); }
            if (n == "pop") { need(0, 1); i64 i = a.size() ? toInt(a[0]) : (i64)o->l.size() - 1; if (i < 0) i += (i64)o->l.size(); if (i < 0 || i >= (i64)o->l.size()) raise("pop"); logSnap(o); PV r = o->l[(size_t)i]; o->l.erase(o->l.begin() + i); return r; }
            if (n == "insert") { need(2, 2); logSnap(o); i64 i = std::min<i64>(std::max<i64>(toInt(a[0]), 0), (i64)o->l.size()); o->l.insert(o->l.begin() + i, a[1]); return pnone(); }
            if (n == "copy") return mklist(o->l);
            if (n == "reverse") { logSnap(o); std::reverse(o->l.begin(), o->l.end()); return pnone(); }
            if (n == "clear") { logSnap(o); o->l.clear(); return pnone(); }
            if (n == "index") { need(1, 1); for (size_t i = 0; i < o->l.size(); i++) { V e = eqV(o->l[i], a[0]); if (e.k != K_CONST) stuck("search depends on data"); if (e.b) return pi((i64)i); } raise("not in list"); }
            if (n == "count") { need(1, 1); PV c = pi(0); for (auto &x : o->l) { V e = eqV(x, a[0]); c = bin(P_ADD, c, e.k == K_CONST ? pi((i64)e.b) : abit(e)); } return c; }
        }
        if (o->k == O_TUPLE && n == "index") { need(1, 1); for (size_t i = 0; i < o->l.size(); i++) { V e = eqV(o->l[i], a[0]); if (e.k != K_CONST) stuck("search depends on data"); if (e.b) return pi((i64)i); } raise("not in tuple"); }
        if (o->k == O_BYTES || o->k == O_BARR) {
            if (o->k == O_BARR && n == "append") { need(1, 1); Cell c = toByte(a[0]); logSnap(o); o->by.push_back(c); return pnone(); }
            if (o->k == O_BARR && n == "extend") { need(1, 1); Bytes b = a[0].t == T_INT ? Bytes() : toBytes(a[0]); logSnap(o); o->by.insert(o->by.end(), b.begin(), b.end()); return pnone(); }
            if (n == "join") { need(1, 1); Obj *r = mk(o->k); bool first = true; for (auto &x : items(a[0])) { if (!first) r->by.insert(r->by.end(), o->by.begin(), o->by.end()); first = false; Bytes b = bytesArg(x, "item"); r->by.insert(r->by.end(), b.begin(), b.end()); } return po(r); }
            if (n == "hex") return pstr("<hex>");
            if (n == "copy") { Obj *r = mk(o->k); r->by = o->by; return po(r); }
            if (n == "tobytes") return pbytes(o->by);
            if (n == "ljust" || n == "rjust") { need(1, 2); i64 w = toInt(a[0]); Cell f{CELL_CONST, 32}; if (a.size() > 1) f = bytesArg(a[1], "fill")[0]; Bytes b = o->by; while ((i64)b.size() < w) { if (n == "ljust") b.push_back(f); else b.insert(b.begin(), f); } Obj *r = mk(o->k); r->by = b; return po(r); }
        }
        if (o->k == O_STR) {
            if (n == "format") { return pstr("<formatted>"); }
            if (n == "startswith") { need(1, 1); return pb(o->s.compare(0, a[0].o->s.size(), a[0].o->s) == 0); }
            if (n == "endswith") { need(1, 1); const std::string &e = a[0].o->s; return pb(o->s.size() >= e.size() && o->s.compare(o->s.size() - e.size(), e.size(), e) == 0); }
            if (n == "split") { std::string d = a.size() ? a[0].o->s : " "; Obj *r = mk(O_LIST); size_t p = 0, q; while ((q = o->s.find(d, p)) != std::string::npos) { r->l.push_back(pstr(o->s.substr(p, q - p))); p = q + d.size(); } r->l.push_back(pstr(o->s.substr(p))); return po(r); }
            if (n == "join") { std::string r; bool f = true; for (auto &x : items(a[0])) { if (!f) r += o->s; f = false; r += show(x); } return pstr(r); }
            if (n == "upper" || n == "lower") { std::string r = o->s; for (char &c : r) c = (char)(n == "upper" ? toupper(c) : tolower(c)); return pstr(r); }
            if (n == "encode") { Bytes b; for (char c : o->s) b.push_back(Cell{CELL_CONST, (u32)(u8)c}); return pbytes(b); }
            if (n == "strip") return self;
            if (n == "replace") { need(2, 2); std::string r = o->s; size_t p = 0; while ((p = r.find(a[0].o->s, p)) != std::string::npos) { r.replace(p, a[0].o->s.size(), a[1].o->s); p += a[1].o->s.size(); } return pstr(r); }
        }
        if (o->k == O_DICT) {
            if (n == "get") { need(1, 2); size_t at; if (dictGet(o, a[0], at)) return o->l[at + 1]; return a.size() > 1 ? a[1] : pnone(); }
            if (n == "items" || n == "keys" || n == "values") { Obj *r = mk(O_LIST); for (size_t i = 0; i < o->l.size(); i += 2) { if (n == "keys") r->l.push_back(o->l[i]); else if (n == "values") r->l.push_back(o->l[i + 1]); else { Obj *t = mk(O_TUPLE); t->l = {o->l[i], o->l[i + 1]}; r->l.push_back(po(t)); } } return po(r); }
        }
        if (o->k == O_BITS) {
            if (n == "set") { need(1, 2); Bit b = truthBit(a[0]); if (a.size() == 1) { for (i64 i = 0; i < o->a; i++) bitSet(o, i, b); return pnone(); } if (a[1].t == T_OBJ) { for (auto &p : items(a[1])) bitSet(o, toInt(p), b); } else bitSet(o, toInt(a[1]), b); return pnone(); }
            if (n == "append" || n == "prepend") { need(1, 1); if (a[0].t != T_OBJ) unsup("append"); PV x = a[0]; if (x.o->k == O_LIST || x.o->k == O_TUPLE || x.o->k == O_STR) x = newBits({x}, {}, "Bits"); if (x.o->k != O_BITS && x.o->k != O_BYTES && x.o->k != O_BARR) unsup("append"); if (n == "prepend") unsup("prepend"); bitAppend(o, x.o); return pnone(); }
            if (n == "overwrite") { need(1, 2); PV x = a[0]; if (x.t == T_OBJ && x.o->k != O_BITS) x = newBits({x}, {}, "Bits"); if (!isO(x, O_BITS)) unsup("overwrite"); i64 p = a.size() > 1 ? toInt(a[1]) : o->c; if (p < 0) p += o->a; if (p < 0 || p + x.o->a > o->a) unsup("overwrite past the end"); for (i64 i = 0; i < x.o->a; i++) bitSet(o, p + i, bitGet(x.o, i)); return pnone(); }
            if (n == "tobytes") { if (o->a % 8) {} return pbytes(bitBytes(o)); }
            if (n == "invert") { need(0, 1); if (a.empty()) for (i64 i = 0; i < o->a; i++) bitSet(o, i, bnot(bitGet(o, i))); else bitSet(o, toInt(a[0]), bnot(bitGet(o, toInt(a[0])))); return pnone(); }
            if (n == "reverse") { need(0, 0); std::vector<Bit> t; for (i64 i = 0; i < o->a; i++) t.push_back(bitGet(o, i)); for (i64 i = 0; i < o->a; i++) bitSet(o, i, t[(size_t)(o->a - 1 - i)]); return pnone(); }
            if (n == "read" || n == "peek") { need(1, 1); logSnap(o); bool rd = n == "read"; if (a[0].t == T_INT) { PV r = getSlice(self, pi(o->c), pi(o->c + a[0].i), pnone()); if (rd) o->c += a[0].i; return r; } std::string f = a[0].o->s; size_t q = f.find(':'); std::string k = f.substr(0, q); i64 w; if (q == std::string::npos) { size_t d = 0; while (d < f.size() && !isdigit((u8)f[d])) d++; k = f.substr(0, d); w = strtoll(f.c_str() + d, nullptr, 10); } else w = strtoll(f.c_str() + q + 1, nullptr, 10); bool le = k.size() > 2 && k.substr(k.size() - 2) == "le"; if (k == "bytes") w *= 8; if (o->c + w > o->a) raise("reading past the end of the bit stream"); PV r; if (k == "bytes") { PV s = getSlice(self, pi(o->c), pi(o->c + w), pnone()); r = pbytes(bitBytes(s.o)); } else { if (k[0] != 'i' && k[0] != 'u') unsup("bit stream format"); r = bitInt(o, o->c, w, k[0] == 'i', le); } if (rd) o->c += w; return r; }
            if (n == "unpack") { need(1, 1); unsup("bitstring.unpack"); }
            if (n == "cut") { need(1, 1); i64 w = toInt(a[0]); Obj *r = mk(O_LIST); sh.push_back(po(r)); for (i64 i = 0; i + 1 <= o->a; i += w) { PV s = getSlice(self, pi(i), pi(std::min(o->a, i + w)), pnone()); r->l.push_back(s); } sh.pop_back(); return po(r); }
        }
        if (o->k == O_INST && !o->cls) {
            if (o->s == "hash") { if (n == "update") { need(1, 1); Bytes b = bytesArg(a[0], "message"); logSnap(o); o->by.insert(o->by.end(), b.begin(), b.end()); return pnone(); } if (n == "finalize") { if (o->c) raise("hash already finalized"); o->c = 1; return pbytes(shake((int)o->a, o->by, (u64)o->b)); } if (n == "copy") { PV r = newInst("hash"); r.o->a = o->a; r.o->b = o->b; r.o->by = o->by; return r; } }
            if (o->s == "hashlib") { if (n == "update") { Bytes b = bytesArg(a[0], "message"); logSnap(o); o->by.insert(o->by.end(), b.begin(), b.end()); return pnone(); } if (n == "digest") { need(1, 1); return pbytes(shake((int)o->a, o->by, (u64)toInt(a[0]))); } if (n == "copy") { PV r = newInst("hashlib"); r.o->a = o->a; r.o->by = o->by; return r; } }
            if (o->s == "cipher" && n == "encryptor") { PV p = newInst("encryptor"); p.o->by = o->by; return p; }
            if (o->s == "encryptor") {
                if (n == "update") { need(1, 1); Bytes m = bytesArg(a[0], "message"); if (m.size() % 16) stuck("partial cipher block"); Bytes r; for (size_t i = 0; i < m.size(); i += 16) { aesCalls++; u32 s = aesStream(&o->by[0], &m[i]); for (u32 k = 0; k < 16; k++) r.push_back(Cell{s, k}); } return pbytes(r); }
                if (n == "finalize") return pbytes(Bytes()); }
        }
        unsup("method " + n);
    }
    // -------------------------------------------------------- tree construction
    Nd *mkn(NKind k, int l) { pool.emplace_back(new Nd); pool.back()->k = k; pool.back()->line = l; return pool.back().get(); }
    void nameInto(Nd *n, const J &j, size_t at) { n->sc = j.a[at].s[0]; if (n->sc == 'L') n->slot = (int)j.a[at + 1].d; else if (n->sc == 'U') { n->depth = (int)j.a[at + 1].d; n->slot = (int)j.a[at + 2].d; } else n->s = j.a[at + 1].s; }
    Nd *bld(const J &j) {
        static const std::map<std::string, NKind> K = {{"None", E_NONE}, {"Bool", E_BOOL}, {"Int", E_INT}, {"Float", E_FLOAT}, {"Str", E_STR}, {"Bytes", E_BYTES}, {"Name", E_NAME}, {"Bin", E_BIN}, {"Un", E_UN}, {"And", E_AND}, {"Or", E_OR}, {"Cmp", E_CMP}, {"IfExp", E_IFEXP}, {"Attr", E_ATTR}, {"Slice", E_SLICE}, {"Sub", E_SUB}, {"Call", E_CALL}, {"Star", E_STAR}, {"Tuple", E_TUPLE}, {"List", E_LIST}, {"Dict", E_DICT}, {"ListComp", E_LISTCOMP}, {"DictComp", E_DICTCOMP}, {"Func", E_FUNC}, {"JoinedStr", E_JOINED}, {"Walrus", E_WALRUS}, {"Yield", E_YIELD}, {"Expr", S_EXPR}, {"Assign", S_ASSIGN}, {"Aug", S_AUG}, {"For", S_FOR}, {"While", S_WHILE}, {"If", S_IF}, {"Return", S_RETURN}, {"Break", S_BREAK}, {"Continue", S_CONTINUE}, {"Assert", S_ASSERT}, {"Raise", S_RAISE}, {"Def", S_DEF}, {"Class", S_CLASS}, {"Import", S_IMPORT}, {"From", S_FROM}, {"Try", S_TRY}, {"With", S_WITH}, {"Block", S_BLOCK}, {"BrkIf", S_BRKIF}};
        static const std::map<std::string, u8> B = {{"+", P_ADD}, {"-", P_SUB}, {"*", P_MUL}, {"/", P_DIV}, {"//", P_FDIV}, {"%", P_MOD}, {"**", P_POW}, {"<<", P_SHL}, {">>", P_SHR}, {"&", P_AND}, {"|", P_OR}, {"^", P_XOR}};
        static const std::map<std::string, u8> C = {{"==", C_EQ}, {"!=", C_NE}, {"<", C_LT}, {"<=", C_LE}, {">", C_GT}, {">=", C_GE}, {"is", C_IS}, {"isnot", C_ISNOT}, {"in", C_IN}, {"notin", C_NOTIN}};
        Nd *n = mkn(K.at(j.a[0].s), (int)j.a[1].d); auto L = [&](std::vector<Nd *> &o, const J &x) { for (auto &y : x.a) o.push_back(bld(y)); };
        switch (n->k) {
        case E_NONE: case S_BREAK: case S_CONTINUE: case S_RAISE: break;
        case E_BOOL: n->i = (i64)j.a[2].d; break;
        case E_INT: { const std::string &s = j.a[2].s; if (s.size() > 18) n->n1 = 1; n->i = strtoll(s.c_str(), nullptr, 10); break; }
        case E_FLOAT: n->d = j.a[2].d; break;
        case E_STR: n->s = j.a[2].s; break;
        case E_BYTES: for (size_t i = 0; i + 1 < j.a[2].s.size(); i += 2) n->s += (char)strtoul(j.a[2].s.substr(i, 2).c_str(), nullptr, 16); break;
        case E_NAME: nameInto(n, j, 2); break;
        case E_BIN: n->op = B.at(j.a[2].s); n->a = {bld(j.a[3]), bld(j.a[4])}; break;
        case E_UN: n->op = j.a[2].s == "not" ? 0 : j.a[2].s == "-" ? 1 : j.a[2].s == "+" ? 2 : 3; n->a = {bld(j.a[3])}; break;
        case E_AND: case E_OR: L(n->a, j.a[2]); break;
        case E_CMP: for (auto &o : j.a[2].a) n->ops.push_back(C.at(o.s)); L(n->a, j.a[3]); break;
        case E_IFEXP: n->a = {bld(j.a[2]), bld(j.a[3]), bld(j.a[4])}; break;
        case E_ATTR: n->a = {bld(j.a[2])}; n->s = j.a[3].s; break;
        case E_SLICE: n->a = {bld(j.a[2]), bld(j.a[3]), bld(j.a[4]), bld(j.a[5])}; break;
        case E_SUB: n->a = {bld(j.a[2]), bld(j.a[3])}; break;
        case E_CALL: n->a = {bld(j.a[2])}; L(n->b, j.a[3]); for (auto &k : j.a[4].a) { n->names.push_back(k.a[0].s); n->c.push_back(bld(k.a[1])); } break;
        case E_STAR: n->a = {bld(j.a[2])}; break;
        case E_TUPLE: case E_LIST: case E_JOINED: L(n->a, j.a[2]); break;
        case E_DICT: L(n->a, j.a[2]); L(n->b, j.a[3]); break;
        case E_LISTCOMP: case E_DICTCOMP: L(n->a, j.a[2]); for (auto &g : j.a[3].a) { n->b.push_back(bld(g.a[0])); n->b.push_back(bld(g.a[1])); Nd *f = mkn(E_TUPLE, n->line); L(f->a, g.a[2]); n->c.push_back(f); } break;
        case E_FUNC: n->s = j.a[2].s; for (auto &p : j.a[3].a) n->names.push_back(p.s); for (auto &d : j.a[4].a) n->a.push_back(d.t == 'l' ? bld(d) : nullptr); n->n1 = (int)j.a[5].d; n->n2 = (int)j.a[6].d + 1; L(n->b, j.a[7]); n->n3 = (int)j.a[8].d; break;
        case E_WALRUS: n->a = {bld(j.a[2])}; n->b = {bld(j.a[3])}; break;
        case E_YIELD: case S_EXPR: case S_RETURN: case S_ASSERT: n->a = {bld(j.a[2])}; break;
        case S_ASSIGN: L(n->a, j.a[2]); n->b = {bld(j.a[3])}; break;
        case S_AUG: n->op = B.at(j.a[2].s); n->a = {bld(j.a[3])}; n->b = {bld(j.a[4])}; break;
        case S_FOR: n->a = {bld(j.a[2])}; n->b = {bld(j.a[3])}; L(n->c, j.a[4]); n->n1 = (int)j.a[5].a.size(); L(n->b, j.a[5]); break;
        case S_WHILE: n->b = {bld(j.a[2])}; L(n->c, j.a[3]); n->n1 = (int)j.a[4].a.size(); L(n->b, j.a[4]); break;
        case S_IF: n->a = {bld(j.a[2])}; L(n->b, j.a[3]); L(n->c, j.a[4]); break;
        case S_DEF: n->a = {bld(j.a[2])}; n->b = {bld(j.a[3])}; L(n->c, j.a[4]); break;
        case S_CLASS: n->a = {bld(j.a[2])}; n->s = j.a[3].s; L(n->b, j.a[4]); L(n->c, j.a[5]); n->n1 = (int)j.a[6].d; break;
        case S_IMPORT: for (auto &x : j.a[2].a) { n->names.push_back(x.a[0].s); n->a.push_back(bld(x.a[1])); n->ops.push_back((u8)x.a[2].d); } break;
        case S_FROM: n->s = j.a[2].s; for (auto &x : j.a[3].a) { n->names.push_back(x.a[0].s); n->a.push_back(bld(x.a[1])); } break;
        case S_TRY: L(n->a, j.a[2]); L(n->b, j.a[3]); L(n->c, j.a[4]); break;
        case S_WITH: break;
        case S_BLOCK: L(n->b, j.a[2]); break;
        case S_BRKIF: n->a = {bld(j.a[2])}; break;
        default: break;
        }
        return n;
    }
    bool load(const char *path) {
        std::ifstream f(path); if (!f) return false; std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str(); JP p(s); J j = p.val();
        for (auto &m : j.a) { Nd *n = mkn(S_EXPR, 0); for (auto &x : m.a[1].a) n->b.push_back(bld(x)); n->n1 = (int)m.a[2].d; modTree[m.a[0].s] = n; }
        return true;
    }
};

static const char *PAR[] = {"len_pk_bytes", "len_sk_bytes", "len_ct_bytes", "len_ss_bytes", "n", "q", "nbar", "mbar", "B", "D", "len_seedA_bytes", "len_z_bytes", "len_mu_bytes", "len_seedSE_bytes", "len_s_bytes", "len_k_bytes", "len_pkh_bytes"};
// analyze py <N> <AES|SHAKE> <kp|enc|dec|params> tree.json
int pyTask(int argc, char **argv) {
    if (argc < 4) return 2;
    const Params *pp = paramsFor(atoi(argv[0])); if (!pp) return 2; const Params &P = *pp; bool sh = !strcmp(argv[1], "SHAKE"); std::string api = argv[2]; double t0 = now();
    PyI I; if (!I.load(argv[3])) { printf("{\"kind\":\"error\",\"bc\":\"%s\",\"msg\":\"unreadable tree\"}\n", argv[3]); return 0; }
    std::string variant = "FrodoKEM-" + std::to_string(P.N) + "-" + argv[1], head = std::string("\"kind\":\"py\",\"n\":") + std::to_string(P.N) + ",\"gen\":\"" + argv[1] + "\",\"api\":\"" + api + "\"", entry = api == "kp" ? "kem_keygen" : api == "enc" ? "kem_encaps" : "kem_decaps";
    u32 s = newStream(mixt(5001, 1), (u32)P.CB, T_SECRET | T_DATA, 0xffffffffu, "sk.s"), pk = newStream(mixt(5002, 1), (u32)P.pk, T_DATA, 0xffffffffu, "pk"), S = newStream(mixt(5003, 1), (u32)(16 * P.N), T_SECRET | T_DATA, 0xffffffffu, "sk.S"), h = newStream(mixt(5004, 1), (u32)P.CB, T_DATA, 0xffffffffu, "sk.pkh"), ct = newStream(mixt(5005, 1), (u32)P.ct, T_DATA, 0xffffffffu, "ct");
    Bytes bpk = streamBytes(pk, 0, (u32)P.pk), bct = streamBytes(ct, 0, (u32)P.ct), bsk; for (auto &b : {streamBytes(s, 0, (u32)P.CB), bpk, streamBytes(S, 0, (u32)(16 * P.N)), streamBytes(h, 0, (u32)P.CB)}) bsk.insert(bsk.end(), b.begin(), b.end());
    u32 rnd = newStream(mixt(5006, 1), 1 << 16, T_SECRET | T_DATA, 0xffffffffu, "random"); I.rnd = rnd;
    KemSpec sp(P, sh); extraRoots = [&](std::function<void(u32)> mk) { for (auto *b : {&sp.pk, &sp.sk, &sp.ct, &sp.ss, &bpk, &bsk, &bct}) for (auto &c : *b) if (c.id >= 2) mk(c.id); };
    std::string status = "returned", where = "python3/frodokem.py:0", func = entry, msg; PV r; std::string params; u64 wantRand = 0;
    try {
        PV mod = I.importMod("frodokem"); if (!isO(mod, O_MOD) || !mod.o->at.count("FrodoKEM")) { printf("{\"kind\":\"error\",\"bc\":\"frodokem.py\",\"msg\":\"class FrodoKEM not found\"}\n"); return 0; }
        PV kem = I.call(mod.o->at["FrodoKEM"], {pstr(variant)}, {}); I.sh.push_back(kem); I.roots.push_back(kem.o);
        for (const char *p : PAR) if (kem.o->at.count(p)) params += (params.size() ? "," : "") + std::string("\"") + p + "\":\"" + esc(I.show(kem.o->at[p])) + "\"";
        std::string cdf; if (kem.o->at.count("T_chi") && kem.o->at["T_chi"].t == T_OBJ) for (auto &x : I.items(kem.o->at["T_chi"])) cdf += (cdf.size() ? "," : "") + I.show(x); params += (params.size() ? "," : "") + std::string("\"T_chi\":\"") + cdf + "\"";
        if (api == "params") { printf("{%s,\"run\":\"returned\",\"params\":{%s}}\n", head.c_str(), params.c_str()); return 0; }
        if (api == "kp") { sp.keygen(rnd); wantRand = (u64)(2 * P.CB + 16); } else if (api == "enc") { sp.encaps(bpk, rnd); wantRand = (u64)P.CB; } else sp.decaps(bsk, bct);
        I.gc(true);
        std::vector<PV> a; if (api == "enc") a = {pbytes(bpk)}; if (api == "dec") a = {pbytes(bsk), pbytes(bct)};
        { PV f = I.getAttr(kem, entry); if (isO(f, O_BOUND) && isO(f.o->l[1], O_FUNC)) where = f.o->l[1].o->file + ":" + std::to_string(f.o->l[1].o->fn->line); I.sh.push_back(f); for (auto &x : a) I.sh.push_back(x); r = I.call(f, a, {}); I.sh.push_back(r); }
    } catch (Stuck &e) { status = "stuck"; msg = e.msg; where = e.file + ":" + std::to_string(e.line); func = e.func; }
    catch (Unsup &e) { status = "unsupported"; msg = e.msg; where = e.file + ":" + std::to_string(e.line); func = e.func; }
    catch (Raised &e) { status = "raised"; msg = e.msg; where = e.file + ":" + std::to_string(e.line); func = e.func; }
    u64 bad = 0, tot = 0; std::string mm; int shown = 0;
    if (status == "returned") {
        std::vector<std::pair<const char *, const Bytes *>> want = api == "kp" ? std::vector<std::pair<const char *, const Bytes *>>{{"pk", &sp.pk}, {"sk", &sp.sk}} : api == "enc" ? std::vector<std::pair<const char *, const Bytes *>>{{"ct", &sp.ct}, {"ss", &sp.ss}} : std::vector<std::pair<const char *, const Bytes *>>{{"ss", &sp.ss}};
        std::vector<PV> got; if (want.size() == 1) got = {r}; else if (isO(r, O_TUPLE) || isO(r, O_LIST)) got = r.o->l;
        for (auto &w : want) tot += w.second->size();
        if (got.size() != want.size()) { bad = tot; mm = "{\"buf\":\"result\",\"byte\":-1,\"msg\":\"wrong number of results\"}"; }
        else for (size_t i = 0; i < want.size(); i++) {
            Bytes b; if (isO(got[i], O_BYTES) || isO(got[i], O_BARR)) b = got[i].o->by;
            if (b.size() != want[i].second->size()) { bad += want[i].second->size(); mm += (mm.size() ? "," : "") + std::string("{\"buf\":\"") + want[i].first + "\",\"byte\":-1,\"msg\":\"has " + std::to_string(b.size()) + " bytes instead of " + std::to_string(want[i].second->size()) + "\"}"; continue; }
            for (size_t k = 0; k < b.size(); k++) if (byteId(b[k]) != byteId((*want[i].second)[k])) { bad++; if (shown++ < 4) mm += (mm.size() ? "," : "") + std::string("{\"buf\":\"") + want[i].first + "\",\"byte\":" + std::to_string(k) + ",\"msg\":\"is " + esc(showCell(b[k])) + ", the specification says " + esc(showCell((*want[i].second)[k])) + "\"}"; }
        }
        if (I.rndPos != wantRand) { bad++; mm += (mm.size() ? "," : "") + std::string("{\"buf\":\"random\",\"byte\":-1,\"msg\":\"") + std::to_string(I.rndPos) + " random bytes are drawn instead of " + std::to_string(wantRand) + "\"}"; }
    }
    std::string fl; for (auto &f : I.reached) fl += (fl.empty() ? "\"" : ",\"") + esc(f) + "\"";
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    if (getenv("VDEBUG")) poolStats();
    printf("{%s,\"run\":\"%s\",\"entry\":\"%s\",\"where\":\"%s\",\"func\":\"%s\",\"msg\":\"%s\",\"bytes\":%llu,\"bad\":%llu,\"mismatch\":[%s],\"params\":{%s},\"steps\":%llu,\"joins\":%llu,\"hashes\":%llu,\"blocks\":%llu,\"funcs\":[%s],\"wall\":%.1f,\"rss_mb\":%ld}\n", head.c_str(), status.c_str(), entry.c_str(), esc(where).c_str(), esc(func).c_str(), esc(msg).c_str(), (unsigned long long)tot, (unsigned long long)bad, mm.c_str(), params.c_str(), (unsigned long long)I.steps, (unsigned long long)I.joins, (unsigned long long)I.hashCalls, (unsigned long long)I.aesCalls, fl.c_str(), now() - t0, ru.ru_maxrss / 1024);
    return 0;
}
