// Abstract domain of the analyser: every run-time quantity is described by the *function of the inputs* it is
// (value numbering with algebraic normal forms), never by a concrete input.
//
//   CONST   a known integer (loop counters, lengths, indices)
//   PTR     region + known offset
//   NODE    an abstract word:
//      AW    consecutive bytes of an input / random / XOF / block-cipher stream (little-endian word)
//      UNI   a function of at most 16 stream bits, given by its complete truth table
//      POLY  a polynomial mod 2^16 over words (linear fingerprint of its monomials)
//      BITS  a vector of boolean functions (XOR-linear fingerprints over products)
//      CAT   a concatenation of bytes of other words (loads that straddle words)
//      OPQ   a value about which only identity and taint are known
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <functional>
#include <algorithm>
#include <immintrin.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128;

enum : u8 { T_SECRET = 1, T_UNINIT = 2, T_DATA = 4 };

// ---------------------------------------------------------------- hashing
extern __m128i HK[4];
void hashInit(u64 seed);
static inline __m128i m128(u128 x) { return _mm_set_epi64x((i64)(u64)(x >> 64), (i64)(u64)x); }
static inline u128 un128(__m128i v) { return ((u128)(u64)_mm_extract_epi64(v, 1) << 64) | (u64)_mm_extract_epi64(v, 0); }
static inline u128 mix(u128 x) {
    __m128i v = _mm_xor_si128(m128(x), HK[0]);
    v = _mm_aesenc_si128(v, HK[1]); v = _mm_aesenc_si128(v, HK[2]); v = _mm_aesenc_si128(v, HK[3]); v = _mm_aesenc_si128(v, HK[0]);
    return un128(v);
}
static inline u128 mixt(u64 tag, u128 x) { return mix(x + ((u128)(tag * 0x9E3779B97F4A7C15ull) << 64 | tag * 0xD6E8FEB86659FD93ull)); }
static inline u128 h2(u64 tag, u128 x, u128 y) { return mixt(tag, mix(x) * 3 + mixt(tag + 77, y)); }

// ---------------------------------------------------------------- values
enum : u8 { K_CONST = 0, K_PTR = 1, K_NODE = 2, K_PTRX = 3 };
enum : u8 { X_NONE = 0, X_Z = 1, X_S = 2 };
struct V {
    u8 k; u8 ext; u16 w; u32 a; u64 b;     // CONST: b | PTR: a=region b=offset | NODE: a=node | PTRX: a=ptrx record
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static inline V vconst(unsigned w, u64 v) { return V{K_CONST, 0, (u16)w, 0, v & maskw(w)}; }
static inline V vnode(unsigned w, u32 n, u8 ext = 0) { return V{K_NODE, ext, (u16)w, n, 0}; }
static inline V vptr(u32 r, i64 off) { return V{K_PTR, 0, 64, r, (u64)off}; }

enum NK : u8 { N_NONE, N_STREAM, N_AW, N_UNI, N_UNIL, N_POLY, N_BITS, N_CAT, N_OPQ, N_PTRV, N_DEAD };
struct Node {
    u8 kind; u8 taint; u16 w;
    u32 p;          // AW: stream | UNI: table | POLY: lane slot | BITS: first bit | CAT: first cell | PTRV: region | STREAM: length
    u64 q;          // AW: byte offset | UNI: base (stream<<32|win<<16|mask) | UNIL: base list | POLY: v | hz<<8 | cst<<16 | PTRV: offset | STREAM: first public byte
    u128 h;         // canonical word id (0 = not computed)
};
extern std::vector<Node> nodes;
struct Rng { i64 lo, hi; bool ok; };         // signed interval of a word (only kept while arithmetic is being checked)
extern std::vector<Rng> rangeOf; extern bool rangeOn;
static inline void rangeReset(u32 id) { if (rangeOn) { if (rangeOf.size() <= id) rangeOf.resize(id + 4096, Rng{0, 0, false}); rangeOf[id].ok = false; } }

enum BKind : u8 { BK_NONE, BK_STREAM, BK_TERM, BK_TWO, BK_MANY };
struct Bit {
    u128 f;         // XOR of the hashes of its monomials (constant term excluded)
    u32 a, b;       // STREAM: stream,bit position | TERM: term | TWO: terms
    u32 cj;         // conjunction view: set<<1 | negated (0: none)
    u8 c;           // constant term
    u8 kind; u8 taint; u8 pad;
};
struct Cell { u32 id; u32 sub; };           // memory byte: id 0 = constant byte `sub`, else byte `sub` of node id (node 1 = uninitialised)
enum { CELL_CONST = 0, CELL_UNINIT = 1 };

// ---------------------------------------------------------------- streams
u32 newStream(u128 h, u32 len, u8 taint, u32 pubFrom = 0xffffffffu, const char *name = nullptr);
u32 findStream(u128 h);                      // 0 when unknown
std::string streamName(u32 s);
u8 streamTaint(u32 s, u32 off);

// ---------------------------------------------------------------- bits
static inline Bit bconst(int c) { Bit b; memset(&b, 0, sizeof b); b.c = c & 1; return b; }
static inline bool bisconst(const Bit &b) { return b.f == 0; }
Bit bstream(u32 s, u32 pos);
Bit bopaque(u128 h, u8 taint);
static inline Bit bnot(Bit b) { b.c ^= 1; if (b.cj) b.cj ^= 1; return b; }
Bit bxor(const Bit &x, const Bit &y);
Bit band(const Bit &x, const Bit &y);
static inline Bit bor(const Bit &x, const Bit &y) { return bnot(band(bnot(x), bnot(y))); }
static inline Bit bmux(const Bit &c, const Bit &t, const Bit &e) { return bxor(e, band(c, bxor(t, e))); }   // c ? t : e
static inline bool beq(const Bit &x, const Bit &y) { return x.f == y.f && x.c == y.c; }
u128 bitHash(const Bit &b);

// ---------------------------------------------------------------- words
u8 taintOf(const V &v);
bool isConst(const V &v);
void bitsOf(const V &v, Bit *out);           // v.w bits
Bit bitOf(const V &v, unsigned k);
V mkBits(const Bit *b, unsigned w);
V opaque(unsigned w, u8 taint);
V opaqueH(unsigned w, u128 h, u8 taint);
u128 widOf(const V &v);                      // canonical id of the value (as an unsigned integer of its width)
u128 wordId16(const V &v, unsigned &shift);  // canonical id of the value mod 2^16 (divided by 2^shift)

enum Op : u8 { O_ADD, O_SUB, O_MUL, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_UDIV, O_SDIV, O_UREM, O_SREM,
               O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE };
V binop(Op op, const V &x, const V &y);      // same width; comparisons give width 1
V vtrunc(const V &v, unsigned w);
V vzext(const V &v, unsigned w);
V vsext(const V &v, unsigned w);
V vselect(const V &c, const V &t, const V &e);
V tableLookup(const V &idx, std::function<bool(u64, u64 &)> f, unsigned w, bool &ok);   // abstract index into constant data

// ---------------------------------------------------------------- bytes
u128 byteId(const Cell &c);
u8 byteTaint(const Cell &c);
V cellsToV(const Cell *c, unsigned n, bool be);          // n bytes in memory order
void vToCells(const V &v, Cell *out, unsigned n, bool be);
std::string showCell(const Cell &c);
std::string showV(const V &v);

// ---------------------------------------------------------------- polynomial accumulators for the specification
struct Poly { u16 l[16]; u16 cst; u8 v; u8 taint; };
void polyZero(Poly &p);
void polyAddV(Poly &p, const V &x, u16 coef);
void polyAddMul(Poly &p, const V &x, const V &y, u16 coef);
V polyV(const Poly &p, unsigned w, unsigned v, bool hz);
size_t polyLive();
void poolStats();
void polyGC(std::function<void(std::function<void(u32)>)> roots);
extern u64 statPolyMul, statUniOps, statBitAnd;
bool uniRange(u32 node, i64 &lo, i64 &hi);
V uniFromWord(const V &word16, u64 key, unsigned w, std::function<u64(u64)> f);   // f applied to a <=16-bit word; key identifies f
