#include "dom.hpp"

__m128i HK[4];
std::vector<Node> nodes;
u64 statPolyMul, statUniOps, statBitAnd;

enum : u64 { TG_CB = 1, TG_UN, TG_AW, TG_UNI, TG_UNIL, TG_POLY, TG_BITS, TG_LIT, TG_CONJ, TG_SB, TG_OB, TG_PB, TG_VAR, TG_MONO,
             TG_TAB, TG_PTR, TG_OPQ, TG_CW, TG_HI };

struct U128Hash { size_t operator()(u128 x) const { return (size_t)(x ^ (x >> 64)); } };
template <class T> using UMap = std::unordered_map<u128, T, U128Hash>;

void hashInit(u64 seed) {
    u64 s = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    auto nx = [&]() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); };
    for (int i = 0; i < 4; i++) { u64 a = nx(), b = nx(); HK[i] = _mm_set_epi64x((i64)a, (i64)b); }
    nodes.clear(); nodes.resize(2); memset(&nodes[0], 0, 2 * sizeof(Node));
    nodes[1].kind = N_OPQ; nodes[1].taint = T_UNINIT; nodes[1].w = 8;
}

static std::vector<u32> freeNodes;       // recycled ids of words that nothing refers to any more
static u64 gcAllocs;
std::vector<Rng> rangeOf; bool rangeOn = false;
static u32 newNode(u8 kind, unsigned w, u8 taint, u32 p, u64 q, u128 h) {
    Node n; n.kind = kind; n.taint = taint; n.w = (u16)w; n.p = p; n.q = q; n.h = h;
    if (kind != N_POLY) { gcAllocs++; if (!freeNodes.empty()) { u32 id = freeNodes.back(); freeNodes.pop_back(); nodes[id] = n; rangeReset(id); return id; } }
    nodes.push_back(n);
    if (nodes.size() > 0x7fffff00u) { fprintf(stderr, "analysis: node table full\n"); exit(3); }
    rangeReset((u32)nodes.size() - 1);
    return (u32)nodes.size() - 1;
}

// ------------------------------------------------------------ streams
static UMap<u32> streamMap;
static std::unordered_map<u32, std::string> streamNames;
u32 findStream(u128 h) { auto it = streamMap.find(h); return it == streamMap.end() ? 0 : it->second; }
u32 newStream(u128 h, u32 len, u8 taint, u32 pubFrom, const char *name) {
    auto it = streamMap.find(h);
    if (it != streamMap.end()) return it->second;
    u32 id = newNode(N_STREAM, 8, taint, len, pubFrom, h);
    streamMap[h] = id;
    if (name) streamNames[id] = name;
    return id;
}
std::string streamName(u32 s) {
    auto it = streamNames.find(s);
    if (it != streamNames.end()) return it->second;
    char b[40]; snprintf(b, sizeof b, "prf#%08x", (unsigned)nodes[s].h); return b;
}
u8 streamTaint(u32 s, u32 off) { const Node &n = nodes[s]; return off >= n.q ? (n.taint & ~T_SECRET) : n.taint; }

// ------------------------------------------------------------ terms and bits
enum TK : u8 { TM_STREAM, TM_OPQ, TM_POLY, TM_CONJ };
struct Term { u128 h; u8 kind, taint; u32 x, y; };
static std::vector<Term> terms(1);
static UMap<u32> termMap;
struct CSet { u128 sum; u32 n; };
static std::vector<CSet> csets(1);
static UMap<u32> csetMap;
struct ConjT { u32 set; std::vector<u32> ex; };
static std::vector<ConjT> conjs;
struct Lanes { u16 l[16]; };
static std::vector<Lanes> polyBitLanes;

static u32 mkCSet(u128 sum, u32 n) {
    auto it = csetMap.find(sum);
    if (it != csetMap.end()) return it->second;
    csets.push_back({sum, n}); csetMap[sum] = (u32)csets.size() - 1; return (u32)csets.size() - 1;
}
static inline u128 litHash(u128 f, int c) { return mixt(TG_LIT, f ^ (c ? ((u128)0xA5A5A5A5DEADBEEFull << 64 | 0x1357924680ACE135ull) : 0)); }
static inline u128 conjHash(u128 sum) { return mixt(TG_CONJ, sum); }
static u32 internTerm(u128 h, u8 kind, u8 taint, u32 x, u32 y) {
    auto it = termMap.find(h);
    if (it != termMap.end()) return it->second;
    terms.push_back({h, kind, taint, x, y}); termMap[h] = (u32)terms.size() - 1; return (u32)terms.size() - 1;
}
static inline u128 sbHash(u32 s, u32 pos) { return mixt(TG_SB, nodes[s].h + (u128)pos * 0x9E3779B97F4A7C15ull); }
Bit bstream(u32 s, u32 pos) {
    Bit b; memset(&b, 0, sizeof b); b.f = sbHash(s, pos); b.a = s; b.b = pos; b.kind = BK_STREAM; b.taint = streamTaint(s, pos >> 3); return b;
}
static Bit bterm(u32 t) { Bit b; memset(&b, 0, sizeof b); b.f = terms[t].h; b.a = t; b.kind = BK_TERM; b.taint = terms[t].taint; return b; }
Bit bopaque(u128 h, u8 taint) { return bterm(internTerm(mixt(TG_OB, h), TM_OPQ, taint, 0, 0)); }
u128 bitHash(const Bit &b) { return mix(b.f ^ (b.c ? (u128)0x5bd1e995u << 40 : 0)); }
static u32 termOf(const Bit &b) {     // b has exactly one term
    if (b.kind == BK_STREAM) return internTerm(b.f, TM_STREAM, b.taint, b.a, b.b);
    return b.a;
}
static u32 conjView(u32 t) {
    if (terms[t].kind != TM_CONJ) return 0;
    const ConjT &c = conjs[terms[t].x]; u128 sum = c.set ? csets[c.set].sum : 0; for (u32 e : c.ex) sum += litHash(terms[e].h, 0);
    return mkCSet(sum, (c.set ? csets[c.set].n : 0) + (u32)c.ex.size()) << 1;
}
Bit bxor(const Bit &x, const Bit &y) {
    if (x.f == 0) { return x.c ? bnot(y) : y; }
    if (y.f == 0) { return y.c ? bnot(x) : x; }
    Bit r; memset(&r, 0, sizeof r);
    r.f = x.f ^ y.f; r.c = x.c ^ y.c;
    if (r.f == 0) return r;                          // constant
    r.taint = x.taint | y.taint;
    bool sx1 = x.kind == BK_STREAM || x.kind == BK_TERM, sy1 = y.kind == BK_STREAM || y.kind == BK_TERM;
    if (sx1 && sy1) { r.kind = BK_TWO; r.a = termOf(x); r.b = termOf(y); }
    else if (x.kind == BK_TWO && sy1 && (terms[x.a].h == y.f || terms[x.b].h == y.f)) { Bit t = bterm(terms[x.a].h == y.f ? x.b : x.a); if (terms[t.a].kind == TM_STREAM) { Bit s = bstream(terms[t.a].x, terms[t.a].y); t = s; } else t.cj = conjView(t.a); t.c = r.c; if (t.c && t.cj) t.cj |= 1; return t; }
    else if (y.kind == BK_TWO && sx1 && (terms[y.a].h == x.f || terms[y.b].h == x.f)) return bxor(y, x);
    else r.kind = BK_MANY;
    return r;
}
static u32 mulTerm(u32 t1, u32 t2) {
    if (t1 == t2) return t1;
    ConjT c; c.set = 0; u8 ta = terms[t1].taint | terms[t2].taint;
    for (u32 t : {t1, t2}) {
        if (terms[t].kind == TM_CONJ) {
            ConjT d = conjs[terms[t].x];
            if (d.set) {
                if (!c.set) c.set = d.set;
                else if (c.set != d.set) c.set = mkCSet(csets[c.set].sum + csets[d.set].sum, csets[c.set].n + csets[d.set].n);
            }
            for (u32 e : d.ex) if (std::find(c.ex.begin(), c.ex.end(), e) == c.ex.end()) c.ex.push_back(e);
        } else if (std::find(c.ex.begin(), c.ex.end(), t) == c.ex.end()) c.ex.push_back(t);
    }
    u128 sum = c.set ? csets[c.set].sum : 0;
    for (u32 e : c.ex) sum += litHash(terms[e].h, 0);
    u128 h = conjHash(sum);
    auto it = termMap.find(h);
    if (it != termMap.end()) return it->second;
    if (c.ex.size() > 8) { c.set = mkCSet(sum, (c.set ? csets[c.set].n : 0) + (u32)c.ex.size()); c.ex.clear(); }
    conjs.push_back(c);
    return internTerm(h, TM_CONJ, ta, (u32)conjs.size() - 1, 0);
}
static int termsOf(const Bit &b, u32 *t) {
    if (b.kind == BK_TWO) { t[0] = b.a; t[1] = b.b; return 2; }
    if (b.kind == BK_STREAM || b.kind == BK_TERM) { t[0] = termOf(b); return 1; }
    return -1;
}
Bit band(const Bit &x, const Bit &y) {
    if (x.f == 0) return x.c ? y : bconst(0);
    if (y.f == 0) return y.c ? x : bconst(0);
    if (x.f == y.f) return x.c == y.c ? (x.cj ? x : y) : bconst(0);
    statBitAnd++;
    bool xneg = x.cj & 1, yneg = y.cj & 1;
    if (xneg && yneg) { Bit nx = bnot(x), ny = bnot(y); Bit r = bxor(bxor(nx, ny), band(nx, ny)); r.c ^= 1; r.cj = 0; return r; }
    if (xneg) { Bit r = bxor(y, band(bnot(x), y)); return r; }
    if (yneg) { Bit r = bxor(x, band(bnot(y), x)); return r; }
    // x & (x ^ z) = x & ~z
    for (int sw = 0; sw < 2; sw++) {
        const Bit &p = sw ? y : x, &q = sw ? x : y;
        if ((p.kind == BK_TERM || p.kind == BK_STREAM) && q.kind == BK_TWO && (terms[q.a].h == p.f || terms[q.b].h == p.f)) return band(p, bnot(bxor(q, p)));
    }
    // x a conjunction, y = 1 ^ t1 ^ t2 where one of the terms extends the same conjunction: distribute (the usual masked selection)
    for (int sw = 0; sw < 2; sw++) {
        const Bit &p = sw ? y : x, &q = sw ? x : y;
        if (p.kind == BK_TERM && p.c == 0 && q.kind == BK_TWO && q.c == 1 && !q.cj && terms[p.a].kind == TM_CONJ && conjs[terms[p.a].x].set) {
            u32 ps = conjs[terms[p.a].x].set; bool share = false;
            for (u32 t : {q.a, q.b}) if (terms[t].kind == TM_CONJ && conjs[terms[t].x].set == ps) share = true;
            if (share) { u32 pa = p.a, qa = q.a, qb = q.b; Bit pp = p; Bit r = bxor(bterm(mulTerm(pa, qa)), bterm(mulTerm(pa, qb))); if (r.f == 0) { return pp; } pp.cj = 0; return bxor(pp, r); }
        }
    }
    u128 sumx, sumy; u32 nx, ny;
    if (x.cj) { sumx = csets[x.cj >> 1].sum; nx = csets[x.cj >> 1].n; } else { sumx = litHash(x.f, x.c); nx = 1; }
    if (y.cj) { sumy = csets[y.cj >> 1].sum; ny = csets[y.cj >> 1].n; } else { sumy = litHash(y.f, y.c); ny = 1; }
    u32 n = nx + ny;
    u32 set = mkCSet(sumx + sumy, n);
    Bit r;
    bool fewx = x.kind != BK_MANY, fewy = y.kind != BK_MANY;
    if (fewx && fewy && (n == 2 || (x.c == 0 && y.c == 0))) {
        u32 tx[2], ty[2]; int ix = termsOf(x, tx), iy = termsOf(y, ty);
        r = bconst(x.c & y.c);
        auto add = [&](const Bit &b) { r = bxor(r, b); };
        if (x.c) for (int j = 0; j < iy; j++) add(bterm(ty[j]));
        if (y.c) for (int j = 0; j < ix; j++) add(bterm(tx[j]));
        for (int i = 0; i < ix; i++) for (int j = 0; j < iy; j++) add(bterm(mulTerm(tx[i], ty[j])));
    } else if (n == 2) {
        u128 h = conjHash(litHash(x.f, 0) + litHash(y.f, 0));
        u32 t = internTerm(h, TM_OPQ, x.taint | y.taint, 0, 0);
        r = bterm(t);
        if (x.c) { Bit b = y; b.c = 0; b.cj = 0; r = bxor(r, b); }
        if (y.c) { Bit b = x; b.c = 0; b.cj = 0; r = bxor(r, b); }
        r.c ^= x.c & y.c;
    } else {
        u128 h = conjHash(sumx + sumy);
        auto it = termMap.find(h);
        u32 t;
        if (it != termMap.end()) t = it->second;
        else { conjs.push_back({set, {}}); t = internTerm(h, TM_CONJ, x.taint | y.taint, (u32)conjs.size() - 1, 0); }
        r = bterm(t);
    }
    if (r.f) { r.taint = x.taint | y.taint; r.cj = set << 1; }
    return r;
}

// ------------------------------------------------------------ truth tables
struct BitFn { u8 kind; u8 c; u32 pos, neg; std::vector<u32> mono; };   // 0 const, 1 linear(pos), 2 cube, 3 complement of cube, 4 ANF
struct Tab {
    int n; std::vector<u64> val; u128 hash; u32 support; u64 orv;
    int polyaff; u16 al, be;                         // -1 unknown, 0 no, 1 yes
    std::map<unsigned, BitFn> fn;
    std::map<unsigned, int> bitaff;                  // by width: all bits affine?
};
static std::vector<Tab> tabs(1);
static UMap<u32> tabMap;
static UMap<u32> tabMemo;
static u32 internTab(int n, std::vector<u64> &&v) {
    u128 h = mixt(TG_TAB, n);
    for (size_t i = 0; i + 1 < v.size(); i += 2) h = mix(h ^ (((u128)v[i] << 64) | v[i + 1]));
    if (v.size() == 1) h = mix(h ^ v[0]);
    auto it = tabMap.find(h);
    if (it != tabMap.end()) return it->second;
    Tab t; t.n = n; t.hash = h; t.polyaff = -1; t.support = 0; t.orv = 0;
    for (int b = 0; b < n; b++)
        for (u32 i = 0; i < v.size(); i++) if (!(i >> b & 1) && v[i] != v[i | 1u << b]) { t.support |= 1u << b; break; }
    for (u64 x : v) t.orv |= x;
    t.val = std::move(v);
    tabs.push_back(std::move(t));
    tabMap[h] = (u32)tabs.size() - 1;
    return (u32)tabs.size() - 1;
}
struct Base { bool win; u32 stream; u32 widx; u32 mask; std::vector<Bit> list; int n() const { return win ? __builtin_popcount(mask) : (int)list.size(); } };
static std::vector<std::vector<Bit>> baseLists;
static UMap<u32> baseListMap;

static u64 opEval(int op, u64 a, u64 b, unsigned w) {
    u64 m = maskw(w);
    switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: return b >= w ? 0 : (u64)(sx(a, w) >> b) & m;
    case O_UDIV: return b ? a / b : 0; case O_UREM: return b ? a % b : 0;
    case O_SDIV: { i64 p = sx(a, w), q = sx(b, w); return q && !(q == -1) ? (u64)(p / q) & m : (q == -1 ? (0 - a) & m : 0); }
    case O_SREM: { i64 p = sx(a, w), q = sx(b, w); return q && q != -1 ? (u64)(p % q) & m : 0; }
    case O_EQ: return a == b; case O_NE: return a != b; case O_ULT: return a < b; case O_ULE: return a <= b; case O_UGT: return a > b; case O_UGE: return a >= b;
    case O_SLT: return sx(a, w) < sx(b, w); case O_SLE: return sx(a, w) <= sx(b, w); case O_SGT: return sx(a, w) > sx(b, w); case O_SGE: return sx(a, w) >= sx(b, w);
    }
    abort();
}
static u32 tabBin(int op, u32 ta, u32 tb, unsigned w) {
    u128 key = h2(1000 + op, ((u128)ta << 32) | tb, w);
    auto it = tabMemo.find(key); if (it != tabMemo.end()) return it->second;
    statUniOps++;
    std::vector<u64> v(tabs[ta].val.size());
    for (size_t i = 0; i < v.size(); i++) v[i] = opEval(op, tabs[ta].val[i], tabs[tb].val[i], w);
    u32 r = internTab(tabs[ta].n, std::move(v)); tabMemo[key] = r; return r;
}
static u32 tabMap1(u64 key0, u32 t, std::function<u64(u64)> f) {
    u128 key = h2(2000, key0, t);
    auto it = tabMemo.find(key); if (it != tabMemo.end()) return it->second;
    statUniOps++;
    std::vector<u64> v(tabs[t].val.size());
    for (size_t i = 0; i < v.size(); i++) v[i] = f(tabs[t].val[i]);
    u32 r = internTab(tabs[t].n, std::move(v)); tabMemo[key] = r; return r;
}
static u32 tabRemap(u32 t, const std::vector<int> &pos, int nNew) {   // old bit i is bit pos[i] of the new index (-1: dropped, value irrelevant)
    u128 k = nNew; for (int p : pos) k = mix(k * 31 + (u128)(p + 2));
    u128 key = h2(3000, k, t);
    auto it = tabMemo.find(key); if (it != tabMemo.end()) return it->second;
    std::vector<u64> v((size_t)1 << nNew);
    for (u32 i = 0; i < v.size(); i++) {
        u32 o = 0; for (size_t b = 0; b < pos.size(); b++) if (pos[b] >= 0 && (i >> pos[b] & 1)) o |= 1u << b;
        v[i] = tabs[t].val[o];
    }
    u32 r = internTab(nNew, std::move(v)); tabMemo[key] = r; return r;
}
static u32 tabConst(u64 c) { return internTab(0, std::vector<u64>{c}); }

static Bit baseBit(const Base &b, int i) {
    if (!b.win) return b.list[i];
    u32 m = b.mask; while (i--) m &= m - 1;
    return bstream(b.stream, b.widx * 16 + (u32)__builtin_ctz(m));
}
static u8 baseTaint(const Base &b) {
    u8 t = 0;
    if (b.win) { if (b.mask & 0xff) t |= streamTaint(b.stream, b.widx * 2); if (b.mask & 0xff00) t |= streamTaint(b.stream, b.widx * 2 + 1); }
    else for (auto &x : b.list) t |= x.taint;
    return t;
}
static int quickBits(const V &v) {    // upper bound of the number of base bits, 99 when not a table candidate
    if (v.k == K_CONST) return 0;
    if (v.k != K_NODE) return 99;
    const Node &n = nodes[v.a];
    switch (n.kind) {
    case N_AW: case N_OPQ: return n.w <= 16 ? n.w : 99;
    case N_UNI: return __builtin_popcount((u32)(n.q & 0xffff));
    case N_UNIL: return (int)baseLists[n.q].size();
    case N_BITS: return n.w <= 64 ? (n.w <= 16 ? n.w : 16) : 99;
    case N_POLY: return n.w <= (n.q & 0xff) ? n.w : 99;
    default: return 99;
    }
}
static u32 patTab(const std::vector<int> &pat, int n) {   // output bit k = const (-1/-2 for 0/1) or base bit idx*2+c
    u128 key = mixt(4000, n); for (int p : pat) key = mix(key * 5 + (u128)(p + 7));
    auto it = tabMemo.find(key); if (it != tabMemo.end()) return it->second;
    std::vector<u64> v((size_t)1 << n);
    for (u32 i = 0; i < v.size(); i++) {
        u64 o = 0;
        for (size_t k = 0; k < pat.size(); k++) {
            int p = pat[k]; u64 b = p == -1 ? 0 : p == -2 ? 1 : ((i >> (p >> 1) & 1) ^ (p & 1));
            o |= b << k;
        }
        v[i] = o;
    }
    u32 r = internTab(n, std::move(v)); tabMemo[key] = r; return r;
}
static bool bitsToUni(const Bit *b, unsigned w, Base &base, u32 &tab) {
    if (w > 64) return false;
    bool win = true; u32 st = 0, wi = 0; bool first = true; u32 mask = 0;
    for (unsigned k = 0; k < w && win; k++) if (b[k].f) {
        if (b[k].kind != BK_STREAM || b[k].b / 16 >= 65536) { win = false; break; }      // a window's index has 16 bits
        if (first) { st = b[k].a; wi = b[k].b / 16; first = false; }
        else if (b[k].a != st || b[k].b / 16 != wi) { win = false; break; }
        mask |= 1u << (b[k].b & 15);
    }
    std::vector<int> pat(w);
    base.list.clear();
    if (win) {
        base.win = true; base.stream = st; base.widx = wi; base.mask = mask;
        for (unsigned k = 0; k < w; k++) pat[k] = !b[k].f ? (b[k].c ? -2 : -1) : 2 * __builtin_popcount(mask & ((1u << (b[k].b & 15)) - 1)) + b[k].c;
        tab = patTab(pat, __builtin_popcount(mask));
        return true;
    }
    base.win = false;
    for (unsigned k = 0; k < w; k++) if (b[k].f) {
        bool f = false; for (auto &x : base.list) if (x.f == b[k].f) { f = true; break; }
        if (!f) { Bit x = b[k]; x.c = 0; if (b[k].c) x.cj = b[k].cj ? b[k].cj ^ 1 : 0; base.list.push_back(x); if (base.list.size() > 16) return false; }
    }
    std::sort(base.list.begin(), base.list.end(), [](const Bit &p, const Bit &q) { return p.f < q.f; });
    for (unsigned k = 0; k < w; k++) {
        if (!b[k].f) { pat[k] = b[k].c ? -2 : -1; continue; }
        for (size_t i = 0; i < base.list.size(); i++) if (base.list[i].f == b[k].f) { pat[k] = (int)(2 * i) + b[k].c; break; }
    }
    tab = patTab(pat, (int)base.list.size());
    return true;
}
static bool toUni(const V &v, Base &base, u32 &tab) {
    if (v.k == K_CONST) { base.win = true; base.mask = 0; base.stream = 0; base.widx = 0; base.list.clear(); tab = tabConst(v.b); return v.w <= 64; }
    if (v.k != K_NODE || v.w > 64) return false;
    const Node &n = nodes[v.a];
    unsigned nw = n.w;
    if (n.kind == N_UNI) { base.win = true; base.stream = (u32)(n.q >> 32); base.widx = (u32)(n.q >> 16 & 0xffff); base.mask = (u32)(n.q & 0xffff); base.list.clear(); tab = n.p; }
    else if (n.kind == N_UNIL) { base.win = false; base.list = baseLists[n.q]; tab = n.p; }
    else if (n.kind == N_AW && n.w <= 16 && (n.q / 2 == (n.q + n.w / 8 - 1) / 2) && n.q / 2 < 65536) {
        base.win = true; base.stream = n.p; base.widx = (u32)(n.q / 2); base.mask = n.w == 16 ? 0xffff : (n.q & 1) ? 0xff00 : 0xff; base.list.clear();
        std::vector<int> pat(n.w); for (int k = 0; k < n.w; k++) pat[k] = 2 * k;
        tab = patTab(pat, n.w);
    } else {
        if (quickBits(v) == 99) return false;
        Bit b[64]; V t = v; t.w = n.w; t.ext = 0;
        bitsOf(t, b);
        if (!bitsToUni(b, nw, base, tab)) return false;
    }
    if (v.w > nw && v.ext == X_S) { unsigned w = v.w; tab = tabMap1(5000 + nw * 100 + w, tab, [nw, w](u64 x) { return (u64)sx(x, nw) & maskw(w); }); }
    return true;
}
// bring several tables over one common base; false when more than 16 bits are involved
static bool unify(std::vector<Base *> bs, std::vector<u32 *> ts, Base &out) {
    bool allwin = true; u32 st = 0, wi = 0, mask = 0; bool first = true;
    for (auto b : bs) {
        if (b->n() == 0) continue;
        if (!b->win) { allwin = false; break; }
        if (first) { st = b->stream; wi = b->widx; first = false; }
        else if (st != b->stream || wi != b->widx) { allwin = false; break; }
        mask |= b->mask;
    }
    if (allwin) {
        out.win = true; out.stream = st; out.widx = wi; out.mask = mask; out.list.clear();
        int nn = __builtin_popcount(mask);
        for (size_t i = 0; i < bs.size(); i++) {
            if (bs[i]->mask == mask && bs[i]->n() == nn) continue;
            std::vector<int> pos; u32 m = bs[i]->mask;
            while (m) { int k = __builtin_ctz(m); m &= m - 1; pos.push_back(__builtin_popcount(mask & ((1u << k) - 1))); }
            *ts[i] = tabRemap(*ts[i], pos, nn);
        }
        return true;
    }
    std::vector<Bit> u;
    for (auto b : bs) for (int i = 0; i < b->n(); i++) {
        Bit x = baseBit(*b, i); bool f = false;
        for (auto &y : u) if (y.f == x.f) { f = true; break; }
        if (!f) { u.push_back(x); if (u.size() > 16) return false; }
    }
    std::sort(u.begin(), u.end(), [](const Bit &p, const Bit &q) { return p.f < q.f; });
    out.win = false; out.list = u;
    for (size_t i = 0; i < bs.size(); i++) {
        std::vector<int> pos;
        for (int j = 0; j < bs[i]->n(); j++) { Bit x = baseBit(*bs[i], j); for (size_t k = 0; k < u.size(); k++) if (u[k].f == x.f) pos.push_back((int)k); }
        *ts[i] = tabRemap(*ts[i], pos, (int)u.size());
    }
    return true;
}
static const BitFn &bitFn(u32 t, unsigned k) {
    auto it = tabs[t].fn.find(k);
    if (it != tabs[t].fn.end()) return it->second;
    BitFn f; f.kind = 0; f.c = 0; f.pos = f.neg = 0;
    int n = tabs[t].n; size_t N = (size_t)1 << n;
    std::vector<u8> v(N); size_t ones = 0;
    for (size_t i = 0; i < N; i++) { v[i] = tabs[t].val[i] >> k & 1; ones += v[i]; }
    if (ones == 0 || ones == N) { f.kind = 0; f.c = ones != 0; }
    else {
        // cube?
        for (int neg = 0; neg < 2 && f.kind == 0; neg++) {
            size_t cnt = neg ? N - ones : ones;
            if (cnt & (cnt - 1)) continue;
            u32 andm = (u32)(N - 1), orm = 0;
            for (size_t i = 0; i < N; i++) if (v[i] != neg) { andm &= (u32)i; orm |= (u32)i; }
            int fixed = __builtin_popcount(andm) + __builtin_popcount((u32)(N - 1) & ~orm);
            if (cnt == (size_t)1 << (n - fixed)) { f.kind = neg ? 3 : 2; f.pos = andm; f.neg = (u32)(N - 1) & ~orm; }
        }
        if (f.kind && __builtin_popcount(f.pos) + __builtin_popcount(f.neg) == 1) {     // a literal
            u8 c = (f.kind == 3) ^ (f.neg != 0); u32 m = f.pos | f.neg; f.kind = 1; f.pos = m; f.neg = 0; f.c = c;
        } else if (!f.kind) {
            for (int b = 0; b < n; b++) for (size_t i = 0; i < N; i++) if (i >> b & 1) v[i] ^= v[i ^ ((size_t)1 << b)];
            bool lin = true;
            for (size_t i = 1; i < N; i++) if (v[i]) { f.mono.push_back((u32)i); if (i & (i - 1)) lin = false; }
            f.c = v[0];
            if (lin) { f.kind = 1; f.pos = 0; for (u32 m : f.mono) f.pos |= m; f.mono.clear(); } else f.kind = 4;
        }
    }
    return tabs[t].fn[k] = f;
}
static Bit uniBit(const Base &base, u32 t, unsigned k) {
    const BitFn &f = bitFn(t, k);
    int n = tabs[t].n;
    if (f.kind == 0) return bconst(f.c);
    if (f.kind == 1) { Bit r = bconst(f.c); for (int i = 0; i < n; i++) if (f.pos >> i & 1) r = bxor(r, baseBit(base, i)); return r; }
    if (f.kind == 2 || f.kind == 3) {
        Bit r = bconst(1);
        for (int i = 0; i < n; i++) { if (f.pos >> i & 1) r = band(r, baseBit(base, i)); if (f.neg >> i & 1) r = band(r, bnot(baseBit(base, i))); }
        return f.kind == 3 ? bnot(r) : r;
    }
    std::vector<Bit> bb; for (int i = 0; i < n; i++) bb.push_back(baseBit(base, i));
    std::vector<u128> lh; for (auto &b : bb) lh.push_back(litHash(b.f, 0));
    Bit r = bconst(f.c); u128 acc = 0; u8 ta = 0;
    for (u32 m : f.mono) {
        int d = __builtin_popcount(m);
        if (d == 1) { acc ^= bb[__builtin_ctz(m)].f; ta |= bb[__builtin_ctz(m)].taint; continue; }
        if (d == 2) {
            int i = __builtin_ctz(m), j = 31 - __builtin_clz(m);
            if (bb[i].kind == BK_TWO || bb[j].kind == BK_TWO) { Bit p = band(bb[i], bb[j]); acc ^= p.f; r.c ^= p.c; ta |= p.taint; continue; }
        }
        u128 s = 0; for (u32 x = m; x; x &= x - 1) { int i = __builtin_ctz(x); s += lh[i]; ta |= bb[i].taint; }
        acc ^= conjHash(s);
    }
    r.f = acc; if (acc) { r.kind = BK_MANY; r.taint = ta; }
    if (f.mono.size() == 1 && r.f) { r.kind = BK_TERM; u8 c = r.c; r.a = internTerm(acc, TM_OPQ, ta, 0, 0); r.c = c; }
    return r;
}
static V mkUni(Base base, u32 tab, unsigned w) {
    // reduce to the support
    u32 sup = tabs[tab].support; int n = tabs[tab].n;
    if (sup == 0) return vconst(w, tabs[tab].val[0]);
    if (sup != (n >= 32 ? ~0u : (1u << n) - 1)) {
        std::vector<int> pos(n, -1); int j = 0; Base nb; nb.win = base.win; nb.stream = base.stream; nb.widx = base.widx; nb.mask = 0;
        u32 m = base.mask;
        for (int i = 0; i < n; i++) {
            u32 low = 0; if (base.win) { low = m & (~m + 1); m &= m - 1; }
            if (sup >> i & 1) { pos[i] = j++; if (base.win) nb.mask |= low; else nb.list.push_back(base.list[i]); }
        }
        tab = tabRemap(tab, pos, j); base = nb; n = j;
    }
    auto &ba = tabs[tab].bitaff;
    auto it = ba.find(w);
    int aff;
    if (it != ba.end()) aff = it->second;
    else { aff = 1; for (unsigned k = 0; k < w && aff; k++) { const BitFn &f = bitFn(tab, k); if (f.kind > 1) aff = 0; } tabs[tab].bitaff[w] = aff; }
    if (aff) { std::vector<Bit> b(w); for (unsigned k = 0; k < w; k++) b[k] = uniBit(base, tab, k); return mkBits(b.data(), w); }
    u8 ta = baseTaint(base) | T_DATA;
    if (!base.win) {
        // all bits of one window after all?
        bool win = true; u32 mask = 0;
        for (auto &b : base.list) { if (b.kind != BK_STREAM || b.b / 16 >= 65536 || b.a != base.list[0].a || b.b / 16 != base.list[0].b / 16) { win = false; break; } mask |= 1u << (b.b & 15); }
        if (win) {
            Base nb; nb.win = true; nb.stream = base.list[0].a; nb.widx = base.list[0].b / 16; nb.mask = mask;
            std::vector<int> pos; for (auto &b : base.list) pos.push_back(__builtin_popcount(mask & ((1u << (b.b & 15)) - 1)));
            tab = tabRemap(tab, pos, n); base = nb;
        }
    }
    if (base.win) {
        u64 q = (u64)base.stream << 32 | (u64)base.widx << 16 | base.mask;
        return vnode(w, newNode(N_UNI, w, ta, tab, q, h2(TG_UNI, nodes[base.stream].h + ((u128)base.widx << 20) + base.mask, tabs[tab].hash)));
    }
    u128 bh = base.list.size(); for (auto &b : base.list) bh = mix(bh * 7 + b.f);
    auto bi = baseListMap.find(bh); u32 bl;
    if (bi != baseListMap.end()) bl = bi->second; else { baseLists.push_back(base.list); bl = (u32)baseLists.size() - 1; baseListMap[bh] = bl; }
    return vnode(w, newNode(N_UNIL, w, ta, tab, bl, h2(TG_UNIL, bh, tabs[tab].hash)));
}
bool uniRange(u32 node, i64 &lo, i64 &hi) {        // exact signed range of a tabulated function
    const Node &n = nodes[node]; if (n.kind != N_UNI && n.kind != N_UNIL) return false;
    static std::unordered_map<u64, std::pair<i64, i64>> memo; u64 key = (u64)n.p << 8 | n.w; auto it = memo.find(key);
    if (it == memo.end()) { i64 a = INT64_MAX, b = INT64_MIN; for (u64 v : tabs[n.p].val) { i64 x = sx(v, n.w); if (x < a) a = x; if (x > b) b = x; } it = memo.emplace(key, std::make_pair(a, b)).first; }
    lo = it->second.first; hi = it->second.second; return true;
}
V uniFromWord(const V &word, u64 key, unsigned w, std::function<u64(u64)> f) {
    Base b; u32 t;
    if (!toUni(word, b, t)) { fprintf(stderr, "uniFromWord: not a small word\n"); exit(3); }
    t = tabMap1(key, t, f);
    return mkUni(b, t, w);
}

// ------------------------------------------------------------ polynomials
static std::vector<Lanes> laneSlots;
static std::vector<u32> freePoly, polyIds;
size_t polyLive() { return polyIds.size() - freePoly.size() + gcAllocs; }
static inline void expandLanes(u128 key, u16 *l) {
    __m128i v = m128(key);
    __m128i a = _mm_aesenc_si128(_mm_aesenc_si128(_mm_xor_si128(v, HK[0]), HK[1]), HK[2]);
    __m128i b = _mm_aesenc_si128(_mm_aesenc_si128(_mm_xor_si128(v, HK[2]), HK[3]), HK[0]);
    a = _mm_aesenc_si128(a, HK[3]); b = _mm_aesenc_si128(b, HK[1]);
    _mm_storeu_si128((__m128i *)l, a); _mm_storeu_si128((__m128i *)(l + 8), b);
}
static inline void lanesAdd(u16 *d, const u16 *s, u16 coef) {
    __m256i a = _mm256_loadu_si256((const __m256i *)d), b = _mm256_loadu_si256((const __m256i *)s);
    _mm256_storeu_si256((__m256i *)d, _mm256_add_epi16(a, _mm256_mullo_epi16(b, _mm256_set1_epi16((short)coef))));
}
static inline void lanesMask(u16 *d, unsigned v) {
    if (v >= 16) return;
    __m256i a = _mm256_loadu_si256((const __m256i *)d);
    _mm256_storeu_si256((__m256i *)d, _mm256_and_si256(a, _mm256_set1_epi16((short)maskw(v))));
}
static inline bool lanesZero(const u16 *d) { __m256i a = _mm256_loadu_si256((const __m256i *)d); return _mm256_testz_si256(a, a); }
void polyZero(Poly &p) { memset(&p, 0, sizeof p); p.v = 16; }
static V mkPoly(Poly &p, unsigned w) {
    unsigned v = p.v < w ? p.v : w;
    lanesMask(p.l, v); p.cst &= maskw(v);
    if (lanesZero(p.l)) {
        if (w <= v) return vconst(w, p.cst);
        std::vector<Bit> b(w); static u64 ctr; u128 h = mixt(TG_HI, ++ctr);
        for (unsigned k = 0; k < w; k++) b[k] = k < v ? bconst(p.cst >> k & 1) : bopaque(h + k, p.taint);
        return mkBits(b.data(), w);
    }
    u64 q = (u64)v | (u64)p.cst << 16;
    u32 id;
    if (!freePoly.empty()) { id = freePoly.back(); freePoly.pop_back(); Node &n = nodes[id]; n.kind = N_POLY; n.taint = p.taint | T_DATA; n.w = (u16)w; n.q = q; n.h = 0; memcpy(laneSlots[n.p].l, p.l, 32); rangeReset(id); }
    else { laneSlots.emplace_back(); memcpy(laneSlots.back().l, p.l, 32); id = newNode(N_POLY, w, p.taint | T_DATA, (u32)laneSlots.size() - 1, q, 0); polyIds.push_back(id); }
    return vnode(w, id);
}
V polyV(const Poly &p0, unsigned w, unsigned v, bool hz) {
    Poly p = p0; if (v < p.v) p.v = v;
    if (hz && v < w) { V x = mkPoly(p, v); return vzext(x, w); }
    return mkPoly(p, w);
}
void polyGC(std::function<void(std::function<void(u32)>)> roots);

struct SF { u16 al, be; u128 id; u8 v, taint; bool cst; };
static u128 lanesHash(const u16 *l, unsigned v) {
    u128 a, b; memcpy(&a, l, 16); memcpy(&b, l + 8, 16);
    return h2(TG_POLY, a + v, b);
}
static bool tabPolyAff(u32 t) {
    Tab &T = tabs[t];
    if (T.polyaff >= 0) return T.polyaff;
    T.be = (u16)T.val[0]; T.al = (u16)(T.val[1] - T.val[0]); T.polyaff = 1;
    for (size_t i = 0; i < T.val.size(); i++) if ((u16)(T.al * i + T.be) != (u16)T.val[i]) { T.polyaff = 0; break; }
    return T.polyaff;
}
static V baseWord(const Base &b) { std::vector<Bit> x; for (int i = 0; i < b.n(); i++) x.push_back(baseBit(b, i)); return mkBits(x.data(), (unsigned)x.size()); }
static void nodeBits(u32 id, Bit *out);
static u64 maybeOnes(const V &v);
static SF smallForm(const V &x) {
    SF s; s.al = 1; s.be = 0; s.v = 16; s.taint = taintOf(x); s.cst = false; s.id = 0;
    if (x.k == K_CONST) { s.cst = true; s.be = (u16)x.b; s.al = 0; return s; }
    const Node &n = nodes[x.a];
    if (n.kind == N_POLY && !(x.ext == X_S && n.w < 16 && x.w > n.w)) {
        s.be = (u16)(n.q >> 16); s.v = (u8)(n.q & 0xff); s.id = lanesHash(laneSlots[n.p].l, s.v); return s;
    }
    if ((n.kind == N_UNI || n.kind == N_UNIL) && (n.w >= 16 || x.ext != X_S || x.w <= n.w) && tabPolyAff(n.p)) {
        Base b; u32 t; V y = x; y.w = n.w; y.ext = 0; toUni(y, b, t);
        unsigned sh; s.id = wordId16(baseWord(b), sh); s.al = (u16)(tabs[t].al << sh); s.be = tabs[t].be; return s;
    }
    if (n.kind == N_BITS && n.w <= 16 && !(x.ext == X_S && x.w > n.w)) {      // known one bits are an added constant; an inverted word is a negated one
        Bit b[16]; unsigned nw = n.w; nodeBits(x.a, b); u16 ones = 0, neg = 0, var = 0;
        for (unsigned k = 0; k < nw; k++) { if (b[k].f) { var |= (u16)(1u << k); if (b[k].c) neg |= (u16)(1u << k); } else if (b[k].c) ones |= (u16)(1u << k); }
        if (ones || (neg && neg == var)) {
            bool inv = neg && neg == var;
            for (unsigned k = 0; k < nw; k++) { if (!b[k].f) b[k].c = 0; else if (inv) b[k] = bnot(b[k]); }
            SF t = smallForm(mkBits(b, 16)); s = t;
            if (inv) { s.al = (u16)(0 - t.al); s.be = (u16)(var - t.be); }
            s.be = (u16)(s.be + ones); return s;
        }
    }
    if (x.w > 16 && n.w > 16) { V y = vtrunc(x, 16); if (y.k != K_NODE || nodes[y.a].w <= 16) return smallForm(y); }
    unsigned sh; s.id = wordId16(x, sh); s.al = sh >= 16 ? 0 : (u16)(1u << sh);
    return s;
}
static void polyAccum(Poly &p, const V &x, u16 coef) {
    if (x.k == K_CONST) { p.cst += (u16)(x.b * coef); return; }
    const Node &n = nodes[x.a];
    p.taint |= n.taint;
    if (n.kind == N_POLY && !(x.ext == X_S && n.w < 16 && x.w > n.w)) {
        unsigned v = n.q & 0xff, tz = coef ? __builtin_ctz(coef) : 16;
        lanesAdd(p.l, laneSlots[n.p].l, coef); p.cst += (u16)((u16)(n.q >> 16) * coef);
        unsigned ev = v + tz; if (ev < p.v) p.v = (u8)ev;
        return;
    }
    SF s = smallForm(x); u16 t[16]; expandLanes(mixt(TG_VAR, s.id), t);
    lanesAdd(p.l, t, (u16)(s.al * coef)); p.cst += (u16)(s.be * coef);
}
void polyAddV(Poly &p, const V &x, u16 coef) { polyAccum(p, x, coef); }
static inline u128 fastWid(const V &x) {      // AW16/UNI16 fast path, 0 when general
    if (x.k != K_NODE) return 0;
    const Node &n = nodes[x.a];
    if (n.kind == N_AW && n.w == 16) return n.h;
    return 0;
}
void polyAddMul(Poly &p, const V &x, const V &y, u16 coef) {
    statPolyMul++;
    if (x.k == K_CONST) { polyAccum(p, y, (u16)(x.b * coef)); return; }
    if (y.k == K_CONST) { polyAccum(p, x, (u16)(y.b * coef)); return; }
    u16 t[16];
    SF a = smallForm(x), b = smallForm(y);
    p.taint |= a.taint | b.taint;
    unsigned v = a.v < b.v ? a.v : b.v; if (v < p.v) p.v = (u8)v;
    expandLanes(a.id + b.id, t); lanesAdd(p.l, t, (u16)(a.al * b.al * coef));
    if (b.be) { expandLanes(mixt(TG_VAR, a.id), t); if (nodes[x.a].kind == N_POLY) { lanesAdd(p.l, laneSlots[nodes[x.a].p].l, (u16)(b.be * coef)); } else lanesAdd(p.l, t, (u16)(a.al * b.be * coef)); }
    if (a.be) { expandLanes(mixt(TG_VAR, b.id), t); if (nodes[y.a].kind == N_POLY) { lanesAdd(p.l, laneSlots[nodes[y.a].p].l, (u16)(a.be * coef)); } else lanesAdd(p.l, t, (u16)(b.al * a.be * coef)); }
    p.cst += (u16)(a.be * b.be * coef);
}
static Bit polyRawBit(const u16 *l, unsigned k, u8 taint) {      // bit k of a polynomial without constant term: depends on it mod 2^(k+1)
    u16 t[16]; memcpy(t, l, 32); lanesMask(t, k + 1);
    if (lanesZero(t)) return bconst(0);
    { u16 o = 0; for (int i = 0; i < 16; i++) o |= t[i]; unsigned z = (unsigned)__builtin_ctz(o); if (z) { for (int i = 0; i < 16; i++) t[i] >>= z; k -= z; } }      // bit k of 2^z P is bit k-z of P
    u128 a, b; memcpy(&a, t, 16); memcpy(&b, t + 8, 16);
    u128 h = h2(TG_PB + 100 * k, a, b);
    auto it = termMap.find(h);
    if (it != termMap.end()) return bterm(it->second);
    polyBitLanes.emplace_back(); memcpy(polyBitLanes.back().l, t, 32);
    return bterm(internTerm(h, TM_POLY, taint, (u32)polyBitLanes.size() - 1, k));
}
static void polyBits(const Node &n0, Bit *out) {
    Node n = n0; unsigned v = n.q & 0xff; u16 cst = (u16)(n.q >> 16);
    Lanes L = laneSlots[n.p];
    unsigned w = n.w;
    unsigned kn = v < w ? v : w;
    for (unsigned k = 0; k < kn; k++) out[k] = polyRawBit(L.l, k, n.taint);
    if (cst) {
        unsigned m = __builtin_ctz(cst);
        if (m < kn) {
            // upper part: word of the raw bits m..kn-1 plus the constant, as a function of those bits when they are few
            Base base; u32 tab; unsigned hw = kn - m; u64 c = cst >> m;
            if (hw <= 12 && bitsToUni(out + m, hw, base, tab)) { tab = tabMap1(0x4000000ull + hw * 65536 + c, tab, [hw, c](u64 x) { return (x + c) & maskw(hw); }); bitsOf(mkUni(base, tab, hw), out + m); }
            else for (unsigned k = m; k < kn; k++) { u16 t[16]; memcpy(t, L.l, 32); lanesMask(t, k + 1); u128 x, y; memcpy(&x, t, 16); memcpy(&y, t + 8, 16); out[k] = bopaque(h2(TG_PB + 50 + 100 * k, x, y + (cst & maskw(k + 1))), n.taint); }
        }
    }
    if (kn < w) { u128 h = h2(TG_HI, lanesHash(L.l, v), ((u128)(u64)(&n0 - &nodes[0]) << 32) + cst); for (unsigned k = kn; k < w; k++) out[k] = bopaque(h + k, n.taint); }
}

// ------------------------------------------------------------ words
static std::vector<Bit> bitPool;
static std::vector<Cell> cellPool;
static std::map<unsigned, std::vector<u32>> freeBits, freeCells;      // recycled pool ranges by length
static u32 bitSlots(const Bit *b, unsigned n) {
    auto &f = freeBits[n];
    if (!f.empty()) { u32 o = f.back(); f.pop_back(); memcpy(&bitPool[o], b, n * sizeof(Bit)); return o; }
    u32 o = (u32)bitPool.size(); bitPool.insert(bitPool.end(), b, b + n); return o;
}
static u32 cellSlots(unsigned n) {
    auto &f = freeCells[n];
    if (!f.empty()) { u32 o = f.back(); f.pop_back(); return o; }
    u32 o = (u32)cellPool.size(); cellPool.resize(cellPool.size() + n); return o;
}

u8 taintOf(const V &v) { return v.k == K_NODE ? nodes[v.a].taint : 0; }
bool isConst(const V &v) { return v.k == K_CONST; }

static u128 awHash(u32 s, u64 off, unsigned w) { return h2(TG_AW, nodes[s].h, ((u128)off << 16) + w); }
static u8 rangeTaint(u32 s, u64 off, unsigned nb) { u8 t = 0; for (unsigned i = 0; i < nb; i++) t |= streamTaint(s, (u32)off + i); return t; }
static V mkAW(u32 s, u64 off, unsigned w) { return vnode(w, newNode(N_AW, w, rangeTaint(s, off, w / 8) | T_DATA, s, off, awHash(s, off, w))); }

static V byteV(const Cell &c);

static void nodeBits(u32 id, Bit *out) {
    Node n = nodes[id];
    switch (n.kind) {
    case N_AW: for (unsigned k = 0; k < n.w; k++) out[k] = bstream(n.p, (u32)(n.q * 8 + k)); return;
    case N_BITS: memcpy(out, &bitPool[n.p], n.w * sizeof(Bit)); return;
    case N_UNI: case N_UNIL: { Base b; u32 t; toUni(vnode(n.w, id), b, t); for (unsigned k = 0; k < n.w; k++) out[k] = uniBit(b, t, k); return; }
    case N_POLY: polyBits(nodes[id], out); return;
    case N_CAT: for (unsigned i = 0; i < n.w / 8; i++) { V b = byteV(cellPool[n.p + i]); bitsOf(b, out + 8 * i); } return;
    default: for (unsigned k = 0; k < n.w; k++) out[k] = bopaque(n.h + k, n.taint); return;
    }
}
void bitsOf(const V &v, Bit *out) {
    if (v.k == K_CONST) { for (unsigned k = 0; k < v.w; k++) out[k] = bconst(k < 64 ? v.b >> k & 1 : 0); return; }
    if (v.k == K_PTR || v.k == K_PTRX) { u128 h = h2(TG_PTR, v.a, v.b); for (unsigned k = 0; k < v.w; k++) out[k] = bopaque(h + k, 0); return; }
    unsigned nw = nodes[v.a].w;
    if (nw <= v.w) {
        nodeBits(v.a, out);
        for (unsigned k = nw; k < v.w; k++) out[k] = v.ext == X_S ? out[nw - 1] : bconst(0);
    } else {
        std::vector<Bit> t(nw); nodeBits(v.a, t.data()); memcpy(out, t.data(), v.w * sizeof(Bit));
    }
}
Bit bitOf(const V &v, unsigned k) { std::vector<Bit> b(v.w < 8 ? 8 : v.w); bitsOf(v, b.data()); return b[k]; }

V mkBits(const Bit *b, unsigned w) {
    unsigned m = w; while (m && b[m - 1].f == 0 && b[m - 1].c == 0) m--;
    if (m == 0) return vconst(w, 0);
    if (w <= 64) {
        bool allc = true; u64 val = 0;
        for (unsigned k = 0; k < m; k++) { if (b[k].f) { allc = false; break; } val |= (u64)b[k].c << k; }
        if (allc) return vconst(w, val);
    }
    u8 ext = X_Z;
    if (m == w && w > 8 && b[w - 1].f) {       // replicated top bit: sign extension
        unsigned s = w; while (s > 1 && beq(b[s - 2], b[w - 1])) s--;
        if (s < w) { m = s; ext = X_S; }
    }
    u8 ta = 0; for (unsigned k = 0; k < m; k++) if (b[k].f) ta |= b[k].taint;
    if (m == w) ext = 0;
    if (m % 8 == 0 && m <= 64 && b[0].kind == BK_STREAM && b[0].f && b[0].b % 8 == 0) {
        bool ok = true;
        for (unsigned k = 0; k < m; k++) if (b[k].kind != BK_STREAM || b[k].c || !b[k].f || b[k].a != b[0].a || b[k].b != b[0].b + k) { ok = false; break; }
        if (ok) { V r = mkAW(b[0].a, b[0].b / 8, m); r.w = (u16)w; r.ext = ext; return r; }
    }
    unsigned lz = 0; while (lz < m && b[lz].f == 0 && b[lz].c == 0) lz++;
    if (m >= 9 && m <= 16 && b[m - 1].kind == BK_TERM && b[m - 1].f && terms[b[m - 1].a].kind == TM_POLY && terms[b[m - 1].a].y == m - 1 - lz) {
        Lanes L = polyBitLanes[terms[b[m - 1].a].x]; bool ok = true; for (int i = 0; i < 16; i++) L.l[i] = (u16)(L.l[i] << lz);
        for (unsigned k = 0; k < m && ok; k++) { if (b[k].c) { ok = false; break; } Bit r = polyRawBit(L.l, k, b[m - 1].taint); if (r.f != b[k].f) ok = false; }
        if (ok) { Poly p; memcpy(p.l, L.l, 32); p.cst = 0; p.v = (u8)m; p.taint = ta; V r = mkPoly(p, m); r.w = (u16)w; r.ext = ext; return r; }
    }
    u32 off = bitSlots(b, m);
    return vnode(w, newNode(N_BITS, m, ta | T_DATA, off, 0, 0), ext);
}
V opaqueH(unsigned w, u128 h, u8 taint) { return vnode(w, newNode(N_OPQ, w, taint | T_DATA, 0, 0, mixt(TG_OPQ, h))); }
V opaque(unsigned w, u8 taint) { static u64 ctr; return opaqueH(w, mixt(TG_OPQ, (u128)++ctr << 70), taint); }

u128 widOf(const V &v) {
    if (v.k == K_CONST) return h2(TG_CB, v.b, 0);
    if (v.k == K_PTR || v.k == K_PTRX) return h2(TG_PTR, v.a, v.b);
    Node &n = nodes[v.a];
    if (v.ext == X_S && v.w > n.w) { std::vector<Bit> b(v.w); bitsOf(v, b.data()); u128 h = TG_BITS; for (auto &x : b) h = mix(h * 3 + bitHash(x)); return h; }
    if (n.w > v.w) return widOf(vtrunc(v, v.w));
    switch (n.kind) {
    case N_POLY: { if (n.w > 8) return h2(TG_POLY + 50, lanesHash(laneSlots[n.p].l, (unsigned)(n.q & 0xff)), n.q); }   // fall through for bytes
    [[fallthrough]];
    case N_BITS: case N_CAT: {
        if (n.h && n.kind != N_POLY) return n.h;
        std::vector<Bit> b(n.w); nodeBits(v.a, b.data());
        V t = n.kind == N_BITS ? v : mkBits(b.data(), nodes[v.a].w);
        u128 h;
        if (nodes[v.a].kind != N_BITS && t.k == K_NODE && nodes[t.a].kind != N_BITS && nodes[t.a].kind != N_POLY) h = widOf(t);
        else if (t.k == K_CONST) h = widOf(t);
        else { h = TG_BITS; size_t m = b.size(); while (m && b[m - 1].f == 0 && !b[m - 1].c) m--; for (size_t i = 0; i < m; i++) h = mix(h * 3 + bitHash(b[i])); }
        if (nodes[v.a].kind != N_POLY) nodes[v.a].h = h;
        return h; }
    default: return n.h;
    }
}
u128 wordId16(const V &x, unsigned &shift) {
    shift = 0;
    if (x.k == K_CONST) { u64 c = x.b & 0xffff; if (!c) return h2(TG_CW, 0, 0); shift = (unsigned)__builtin_ctzll(c); return h2(TG_CW, c >> shift, 0); }
    if (x.k != K_NODE) return widOf(x);
    const Node &n = nodes[x.a];
    bool sext = x.ext == X_S && x.w > n.w;
    if (n.w > 16) return wordId16(vtrunc(x, 16), shift);
    if (sext && n.w < 16) { V y = x; if (y.w > 16) y = vtrunc(y, 16); Bit b[16]; bitsOf(y, b); u128 h = TG_BITS; for (unsigned k = 0; k < y.w; k++) h = mix(h * 3 + bitHash(b[k])); return h; }
    if (n.kind == N_AW || n.kind == N_UNI || n.kind == N_UNIL || n.kind == N_OPQ) return n.h;
    if (n.kind == N_BITS || n.kind == N_CAT) {
        Bit b[16]; unsigned w = n.w; nodeBits(x.a, b);
        unsigned t = 0; while (t < w && b[t].f == 0 && b[t].c == 0) t++;
        if (t == w) return h2(TG_CW, 0, 0);
        if (t == 0 && n.kind == N_BITS) return widOf(vnode(n.w, x.a));
        shift = t; V y = mkBits(b + t, w - t);
        return widOf(vnode(nodes[y.a].w, y.a));
    }
    return widOf(x);
}
static u64 maybeOnes(const V &v) {
    if (v.k == K_CONST) return v.b;
    if (v.k != K_NODE) return ~0ull;
    const Node &n = nodes[v.a]; u64 m = maskw(n.w);
    if (n.kind == N_BITS) { m = 0; for (unsigned k = 0; k < n.w && k < 64; k++) if (bitPool[n.p + k].f || bitPool[n.p + k].c) m |= 1ull << k; }
    else if (n.kind == N_UNI || n.kind == N_UNIL) m = tabs[n.p].orv;
    if (v.w > n.w && v.ext == X_S && (m >> (n.w - 1) & 1)) m |= maskw(v.w) & ~maskw(n.w);
    return m & maskw(v.w);
}
static bool isPoly(const V &v) { return v.k == K_NODE && nodes[v.a].kind == N_POLY; }
static bool isUni(const V &v) { return v.k == K_NODE && (nodes[v.a].kind == N_UNI || nodes[v.a].kind == N_UNIL); }
static V deCat(const V &v) {
    if (v.k == K_NODE && nodes[v.a].kind == N_CAT) { std::vector<Bit> b(v.w); bitsOf(v, b.data()); return mkBits(b.data(), v.w); }
    return v;
}
static bool tryUni(Op op, const V &x, const V &y, V &r) {
    unsigned w = x.w; if (w > 64) return false;
    int qx = quickBits(x), qy = quickBits(y);
    if (qx == 99 || qy == 99) return false;
    if (qx + qy > 16) {       // only a shared base can work
        auto winOf = [&](const V &v, u64 &id) {
            const Node &n = nodes[v.a];
            if (n.kind == N_UNI) { id = n.q >> 16; return true; }
            if (n.kind == N_AW) { id = ((u64)n.p << 16) | (n.q / 2); return true; }
            return false; };
        u64 a, b;
        if (winOf(x, a) && winOf(y, b) && a != b) return false;
        u128 fs[192]; int nf = 0;
        for (const V *v : {&x, &y}) if (v->k == K_NODE) {
            const Node &n = nodes[v->a];
            if (n.kind == N_UNI || n.kind == N_UNIL) { Base bb; u32 tt; V z = *v; z.w = n.w; z.ext = 0; toUni(z, bb, tt); for (int i = 0; i < bb.n(); i++) fs[nf++] = baseBit(bb, i).f; }
            else { Bit bb[64]; unsigned nw = n.w > 64 ? 64 : n.w; V z = *v; z.w = (u16)nw; z.ext = 0; bitsOf(z, bb); for (unsigned i = 0; i < nw; i++) if (bb[i].f) fs[nf++] = bb[i].f; }
        }
        std::sort(fs, fs + nf); if (std::unique(fs, fs + nf) - fs > 16) return false;
    }
    Base bx, by, bo; u32 tx, ty;
    if (!toUni(x, bx, tx) || !toUni(y, by, ty)) return false;
    if (!unify({&bx, &by}, {&tx, &ty}, bo)) return false;
    u32 t = tabBin(op, tx, ty, w);
    r = mkUni(bo, t, op >= O_EQ ? 1 : w);
    return true;
}
static bool sharedBase(const V &x, const V &y) {       // would one table over both stay as small as the larger of the two?
    if (x.k == K_CONST || y.k == K_CONST) return true;
    const Node &a = nodes[x.a], &b = nodes[y.a];
    auto win = [](const Node &n, u64 &w) { if (n.kind == N_UNI) { w = n.q >> 16; return true; } if (n.kind == N_AW && n.w <= 16) { w = ((u64)n.p << 16) | (n.q / 2); return true; }
        if (n.kind == N_BITS && n.w <= 64) {
            bool first = true;
            for (unsigned k = 0; k < n.w; k++) { const Bit &x = bitPool[n.p + k]; if (!x.f) continue; if (x.kind != BK_STREAM) return false;
                u64 v = ((u64)x.a << 16) | (x.b / 16); if (first) { w = v; first = false; } else if (v != w) return false; }
            return !first;
        }
        return false; };
    u64 wa, wb; if (win(a, wa) && win(b, wb)) return wa == wb;
    if (a.kind == N_UNIL && b.kind == N_UNIL) return a.q == b.q;
    return quickBits(x) + quickBits(y) <= 8;
}
static V bitwise(Op op, const V &x, const V &y) {
    unsigned w = x.w; Bit bx[512], by[512];
    if (w > 512) return opaque(w, taintOf(x) | taintOf(y));
    bitsOf(x, bx); bitsOf(y, by);
    for (unsigned k = 0; k < w; k++) bx[k] = op == O_AND ? band(bx[k], by[k]) : op == O_OR ? bor(bx[k], by[k]) : bxor(bx[k], by[k]);
    return mkBits(bx, w);
}
static bool sameV(const V &x, const V &y) { return x.k == y.k && x.w == y.w && x.a == y.a && x.b == y.b && (x.k != K_NODE || x.ext == y.ext || nodes[x.a].w == x.w); }

static bool hasConj(const Bit &b) { u32 t[2]; int n = termsOf(b, t); for (int i = 0; i < n; i++) if (terms[t[i]].kind == TM_CONJ && conjs[terms[t[i]].x].set) return true; return b.cj != 0; }

V binop(Op op, const V &x0, const V &y0) {
    unsigned w = x0.w;
    if (x0.k == K_CONST && y0.k == K_CONST && w <= 64) return vconst(op >= O_EQ ? 1 : w, opEval(op, x0.b, y0.b, w));
    if ((x0.k == K_PTR || x0.k == K_PTRX) || (y0.k == K_PTR || y0.k == K_PTRX)) return opaque(op >= O_EQ ? 1 : w, taintOf(x0) | taintOf(y0));
    V x = deCat(x0), y = deCat(y0), r;
    if (x.k == K_CONST && y.k == K_CONST && w <= 64) return vconst(op >= O_EQ ? 1 : w, opEval(op, x.b, y.b, w));
    u8 ta = taintOf(x) | taintOf(y);
    if (x.k == K_CONST && (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_NE)) std::swap(x, y);
    if (sameV(x, y)) {
        switch (op) {
        case O_SUB: case O_XOR: return vconst(w, 0);
        case O_AND: case O_OR: return x;
        case O_EQ: case O_ULE: case O_UGE: case O_SLE: case O_SGE: return vconst(1, 1);
        case O_NE: case O_ULT: case O_UGT: case O_SLT: case O_SGT: return vconst(1, 0);
        default: break;
        }
    }
    switch (op) {
    case O_ADD: case O_SUB: {
        if (y.k == K_CONST && y.b == 0 && w <= 64) return x;
        if (w > 64) return opaque(w, ta);
        bool px = isPoly(x), py = isPoly(y);
        if (!px && !py) {
            if (op == O_ADD && (maybeOnes(x) & maybeOnes(y)) == 0) return bitwise(O_OR, x, y);
            if (op == O_ADD && x.k == K_NODE && y.k == K_NODE && nodes[x.a].kind == N_BITS && nodes[y.a].kind == N_BITS) {      // masked by complementary masks: no bit position has both
                Bit a[64], b[64]; bitsOf(x, a); bitsOf(y, b); bool dis = true;
                for (unsigned k = 0; k < w && dis; k++) { if (!(a[k].f || a[k].c) || !(b[k].f || b[k].c)) continue; if (!hasConj(a[k]) || !hasConj(b[k])) { dis = false; break; } Bit c = band(a[k], b[k]); if (c.f || c.c) dis = false; }
                if (dis) return bitwise(O_OR, x, y);
            }
            if (tryUni(op, x, y, r)) return r;
            if (w > 16 && (op == O_SUB ? (x.k == K_CONST && x.b == 0) || (y.k == K_CONST && y.b == 1) : (y.k == K_CONST && y.b == maskw(w)))) {
                // 0 - x and x - 1 bit by bit: whether the bits below are all zero decides
                bool neg = op == O_SUB && x.k == K_CONST; const V &z = neg ? y : x;
                if (__builtin_popcountll(maybeOnes(z)) > 16) { Bit b[64], any = bconst(0); bitsOf(z, b); for (unsigned k = 0; k < w; k++) { Bit o = b[k]; b[k] = neg ? bxor(o, any) : bxor(o, bnot(any)); any = bor(any, o); } return mkBits(b, w); }
            }
        }
        Poly p; polyZero(p); polyAccum(p, x, 1); polyAccum(p, y, op == O_ADD ? 1 : 0xffff);
        return mkPoly(p, w); }
    case O_MUL: {
        if (w > 64) return opaque(w, ta);
        if (y.k == K_CONST) {
            if (y.b == 0) return vconst(w, 0);
            if (y.b == 1) return x;
            if ((y.b & (y.b - 1)) == 0) return binop(O_SHL, x, vconst(w, (u64)__builtin_ctzll(y.b)));
        }
        if (!isPoly(x) && !isPoly(y) && tryUni(op, x, y, r)) return r;
        Poly p; polyZero(p);
        if (y.k == K_CONST) polyAccum(p, x, (u16)y.b); else polyAddMul(p, x, y, 1);
        return mkPoly(p, w); }
    case O_AND: case O_OR: case O_XOR: {
        if (y.k == K_CONST && w <= 64) {
            if (y.b == 0) return op == O_AND ? y : x;
            if (y.b == maskw(w) && op == O_AND) return x;
            if (y.b == maskw(w) && op == O_OR) return y;
            if (op == O_AND && isPoly(x) && (y.b & (y.b + 1)) == 0) {
                unsigned m = (unsigned)__builtin_popcountll(y.b); const Node &n = nodes[x.a];
                if (m <= (n.q & 0xff) && m <= n.w) return vzext(vtrunc(x, m), w);
            }
            if (op == O_AND && x.k == K_NODE && (x.ext == X_Z || x.w == nodes[x.a].w) && (~y.b & maskw(nodes[x.a].w)) == 0 && nodes[x.a].w <= 64 && nodes[x.a].w <= w) return x;
        }
        if ((isUni(x) || isUni(y)) && sharedBase(x, y) && tryUni(op, x, y, r)) return r;
        return bitwise(op, x, y); }
    case O_SHL: case O_LSHR: case O_ASHR: {
        if (y.k != K_CONST) { if (tryUni(op, x, y, r)) return r; return opaque(w, ta); }
        if (y.b == 0) return x;
        if (y.b >= w) return opaque(w, ta | T_UNINIT);
        if (op == O_SHL && isPoly(x) && y.b < 16 && w <= 64) {
            if (x.ext == X_Z && nodes[x.a].w < w && nodes[x.a].w <= (nodes[x.a].q & 0xff) && nodes[x.a].w + y.b <= 16 && nodes[x.a].w + y.b <= w) { unsigned nw = nodes[x.a].w + (unsigned)y.b; Poly p; polyZero(p); polyAccum(p, x, (u16)(1u << y.b)); return vzext(mkPoly(p, nw), w); }
            bool exact = x.ext == X_Z && nodes[x.a].w < w && nodes[x.a].w <= (nodes[x.a].q & 0xff) && w > 16;      // all its bits are known: bit by bit below
            if (!exact) { Poly p; polyZero(p); polyAccum(p, x, (u16)(1u << y.b)); return mkPoly(p, w); } }
        if (isUni(x) && tryUni(op, x, y, r)) return r;
        if (w > 512) return opaque(w, ta);
        Bit b[512], o[512]; bitsOf(x, b); unsigned s = (unsigned)y.b;
        for (unsigned k = 0; k < w; k++) {
            if (op == O_SHL) o[k] = k >= s ? b[k - s] : bconst(0);
            else o[k] = k + s < w ? b[k + s] : (op == O_ASHR ? b[w - 1] : bconst(0));
        }
        return mkBits(o, w); }
    case O_UDIV: case O_SDIV: case O_UREM: case O_SREM:
        if (y.k == K_CONST && y.b && (y.b & (y.b - 1)) == 0 && w <= 64) {
            if (op == O_UDIV) return binop(O_LSHR, x, vconst(w, (u64)__builtin_ctzll(y.b)));
            if (op == O_UREM) return binop(O_AND, x, vconst(w, y.b - 1));
            if (y.b != 1ull << (w - 1) && !(maybeOnes(x) >> (w - 1) & 1)) {      // not negative: the same as unsigned
                if (op == O_SDIV) return binop(O_LSHR, x, vconst(w, (u64)__builtin_ctzll(y.b)));
                if (op == O_SREM) return binop(O_AND, x, vconst(w, y.b - 1));
            }
        }
        if (tryUni(op, x, y, r)) return r;
        return opaque(w, ta);
    default: break;
    }
    // comparisons
    if (w <= 64 && y.k == K_CONST) {
        if (op == O_SLT && y.b == 0) { Bit b = bitOf(x, w - 1); return mkBits(&b, 1); }
        if (op == O_SGT && y.b == maskw(w)) { Bit b = bnot(bitOf(x, w - 1)); return mkBits(&b, 1); }
        if (op == O_UGE && y.b == 0) return vconst(1, 1);
        if (op == O_ULT && y.b == 0) return vconst(1, 0);
        if (op == O_UGT && y.b == 0) op = O_NE;
        if (op == O_ULT && y.b == 1) { op = O_EQ; y.b = 0; }
        if (op == O_ULT && maybeOnes(x) < y.b) return vconst(1, 1);
        if (op == O_ULE && maybeOnes(x) <= y.b) return vconst(1, 1);
        if (op == O_UGT && maybeOnes(x) <= y.b) return vconst(1, 0);
        if (op == O_UGE && maybeOnes(x) < y.b) return vconst(1, 0);
    }
    if (tryUni(op, x, y, r)) return r;
    if ((op == O_EQ || op == O_NE) && w <= 512) {
        Bit bx[512], by[512], acc = bconst(1); bitsOf(x, bx); bitsOf(y, by);
        for (unsigned k = 0; k < w; k++) acc = band(acc, bnot(bxor(bx[k], by[k])));
        if (op == O_NE) acc = bnot(acc);
        return mkBits(&acc, 1);
    }
    Bit b = bopaque(h2(6000 + op, widOf(x), widOf(y)), ta);
    return mkBits(&b, 1);
}
V vtrunc(const V &v, unsigned w) {
    if (v.w == w && (v.k != K_NODE || nodes[v.a].w <= w)) return v;
    if (v.k == K_CONST) return vconst(w, v.b);
    if (v.k != K_NODE) return opaqueH(w, widOf(v), 0);
    const Node &n = nodes[v.a];
    if (n.w <= w) { V r = v; r.w = (u16)w; return r; }
    if (n.kind == N_AW && w % 8 == 0) return mkAW(n.p, n.q, w);
    if (n.kind == N_POLY) { Poly p; memcpy(p.l, laneSlots[n.p].l, 32); p.cst = (u16)(n.q >> 16); p.v = (u8)(n.q & 0xff); p.taint = n.taint; return mkPoly(p, w); }
    if (n.kind == N_UNI || n.kind == N_UNIL) { Base b; u32 t; V y = v; y.w = n.w; y.ext = 0; toUni(y, b, t); t = tabMap1(7000 + w, t, [w](u64 x) { return x & maskw(w); }); return mkUni(b, t, w); }
    if (n.kind == N_CAT && w % 8 == 0) { std::vector<Cell> c(cellPool.begin() + n.p, cellPool.begin() + n.p + w / 8); return cellsToV(c.data(), w / 8, false); }
    std::vector<Bit> b(n.w); nodeBits(v.a, b.data());
    return mkBits(b.data(), w);
}
V vzext(const V &v, unsigned w) {
    if (v.w == w) return v;
    if (v.k == K_CONST) { if (w <= 64) return vconst(w, v.b); V r = v; r.w = (u16)w; return r; }
    if (v.k != K_NODE) return v;
    if (nodes[v.a].w == v.w || v.ext == X_Z) { V r = v; r.w = (u16)w; r.ext = X_Z; return r; }
    std::vector<Bit> b(w); bitsOf(v, b.data()); for (unsigned k = v.w; k < w; k++) b[k] = bconst(0);
    return mkBits(b.data(), w);
}
V vsext(const V &v, unsigned w) {
    if (v.w == w) return v;
    if (v.k == K_CONST) return vconst(w, (u64)sx(v.b, v.w));
    if (v.k != K_NODE) return v;
    if (nodes[v.a].w == v.w || v.ext == X_S) { V r = v; r.w = (u16)w; r.ext = X_S; return r; }
    V r = v; r.w = (u16)w; return r;      // zero-extended node: top bit is 0
}
V vselect(const V &c, const V &t, const V &e) {
    if (c.k == K_CONST) return c.b ? t : e;
    if (sameV(t, e)) return t;
    if (t.k == K_PTR || e.k == K_PTR || t.k == K_PTRX || e.k == K_PTRX) return opaque(t.w, taintOf(c));
    if (t.w <= 64 && !isUni(c) && !isUni(t) && !isUni(e) && !isPoly(t) && !isPoly(e)) {      // sides that differ in constant bits only
        Bit bt[64], be[64], bc = bitOf(c, 0); bitsOf(t, bt); bitsOf(e, be); bool lin = true;
        for (unsigned k = 0; k < t.w && lin; k++) lin = bt[k].f == be[k].f;
        if (lin) { for (unsigned k = 0; k < t.w; k++) if (bt[k].c != be[k].c) be[k] = bxor(be[k], bc); return mkBits(be, t.w); }
    }
    if (t.w <= 64 && quickBits(c) != 99 && quickBits(t) != 99 && quickBits(e) != 99) {
        Base bc, bt, be, bo; u32 tc, tt, te;
        if (toUni(c, bc, tc) && toUni(t, bt, tt) && toUni(e, be, te) && unify({&bc, &bt, &be}, {&tc, &tt, &te}, bo)) {
            u128 key = h2(9000, ((u128)tc << 64) | ((u128)tt << 32) | te, t.w);
            auto it = tabMemo.find(key);
            if (it != tabMemo.end()) return mkUni(bo, it->second, t.w);
            std::vector<u64> v(tabs[tc].val.size());
            for (size_t i = 0; i < v.size(); i++) v[i] = tabs[tc].val[i] ? tabs[tt].val[i] : tabs[te].val[i];
            u32 tn = internTab(tabs[tc].n, std::move(v)); tabMemo[key] = tn;
            return mkUni(bo, tn, t.w);
        }
    }
    unsigned w = t.w; std::vector<Bit> bt(w), be(w); Bit bc = bitOf(c, 0);
    bitsOf(t, bt.data()); bitsOf(e, be.data());
    for (unsigned k = 0; k < w; k++) bt[k] = bmux(bc, bt[k], be[k]);
    return mkBits(bt.data(), w);
}
V tableLookup(const V &idx, std::function<bool(u64, u64 &)> f, unsigned w, bool &ok) {
    Base b; u32 t; ok = false;
    V ix = deCat(idx);
    if (!toUni(ix, b, t)) return opaque(w, taintOf(idx));
    std::vector<u64> v(tabs[t].val.size());
    for (size_t i = 0; i < v.size(); i++) if (!f(tabs[t].val[i], v[i])) return opaque(w, taintOf(idx));
    ok = true;
    u32 tn = internTab(tabs[t].n, std::move(v));
    return mkUni(b, tn, w);
}

// ------------------------------------------------------------ bytes
static UMap<u32> uninitDummy;
static V byteV(const Cell &c) {
    if (c.id == CELL_CONST) return vconst(8, c.sub);
    if (c.id == CELL_UNINIT) return opaqueH(8, h2(TG_UN, c.sub, 1), T_UNINIT);
    Node n = nodes[c.id];
    switch (n.kind) {
    case N_STREAM: return mkAW(c.id, c.sub, 8);
    case N_AW: return mkAW(n.p, n.q + c.sub, 8);
    case N_UNI: case N_UNIL: {
        Base b; u32 t; toUni(vnode(n.w, c.id), b, t); unsigned s = c.sub * 8;
        t = tabMap1(8000 + s, t, [s](u64 x) { return (x >> s) & 0xff; }); return mkUni(b, t, 8); }
    case N_CAT: return byteV(cellPool[n.p + c.sub]);
    default: {
        unsigned m = n.w < 512 ? n.w : 512; Bit b[520]; for (unsigned k = m; k < m + 8; k++) b[k] = bconst(0);
        nodeBits(c.id, b);
        unsigned s = c.sub * 8; if (s >= m) return vconst(8, 0);
        Bit o[8]; for (unsigned k = 0; k < 8; k++) o[k] = s + k < m ? b[s + k] : bconst(0);
        return mkBits(o, 8); }
    }
}
u128 byteId(const Cell &c) {
    if (c.id == CELL_CONST) return h2(TG_CB, c.sub, 0);
    if (c.id >= 2) {
        const Node &n = nodes[c.id];
        if (n.kind == N_STREAM) return awHash(c.id, c.sub, 8);
        if (n.kind == N_AW) return awHash(n.p, n.q + c.sub, 8);
    }
    return widOf(byteV(c));
}
u8 byteTaint(const Cell &c) {
    if (c.id == CELL_CONST) return 0;
    if (c.id == CELL_UNINIT) return T_UNINIT;
    const Node &n = nodes[c.id];
    if (n.kind == N_STREAM) return streamTaint(c.id, c.sub);
    if (n.kind == N_AW) return streamTaint(n.p, (u32)(n.q + c.sub));
    if (n.kind == N_CAT) return byteTaint(cellPool[n.p + c.sub]);
    if (n.kind == N_BITS) { u8 t = 0; for (unsigned k = c.sub * 8; k < c.sub * 8 + 8 && k < n.w; k++) if (bitPool[n.p + k].f) t |= bitPool[n.p + k].taint; return t; }
    return n.taint;
}
V cellsToV(const Cell *c0, unsigned n, bool be) {
    Cell tmp[64]; const Cell *c = c0;
    if (be && n > 1) { for (unsigned i = 0; i < n; i++) tmp[i] = c0[n - 1 - i]; c = tmp; }
    if (n == 1) return byteV(c[0]);
    unsigned m = n; while (m && c[m - 1].id == CELL_CONST && c[m - 1].sub == 0) m--;
    if (m == 0) return vconst(8 * n, 0);
    if (n <= 8) {
        bool allc = true; u64 v = 0;
        for (unsigned i = 0; i < m; i++) { if (c[i].id != CELL_CONST) { allc = false; break; } v |= (u64)c[i].sub << (8 * i); }
        if (allc) return vconst(8 * n, v);
    }
    u32 id = c[0].id;
    if (id >= 2) {
        const Node &nd = nodes[id];
        bool cons = true;
        for (unsigned i = 1; i < m; i++) if (c[i].id != id || c[i].sub != c[0].sub + i) { cons = false; break; }
        if (cons) {
            if (nd.kind == N_STREAM && m <= 8) { V r = mkAW(id, c[0].sub, 8 * m); r.w = (u16)(8 * n); r.ext = X_Z; return r; }
            if (nd.kind == N_AW && m <= 8) {
                if (c[0].sub == 0 && nd.w == 8 * m) return V{K_NODE, X_Z, (u16)(8 * n), id, 0};
                V r = mkAW(nd.p, nd.q + c[0].sub, 8 * m); r.w = (u16)(8 * n); r.ext = X_Z; return r;
            }
            if (nd.kind == N_PTRV && c[0].sub == 0 && n == 8) return vptr(nd.p, (i64)nd.q);
            if (c[0].sub == 0 && (nd.w + 7u) / 8 == m && nd.kind != N_STREAM) return V{K_NODE, X_Z, (u16)(8 * n), id, 0};
        }
        // adjacent stream bytes coming from different nodes
        if (m <= 8) {
            u32 st = 0; u64 off = 0; bool ok = true;
            for (unsigned i = 0; i < m && ok; i++) {
                if (c[i].id < 2) { ok = false; break; }
                const Node &x = nodes[c[i].id]; u32 s; u64 o;
                if (x.kind == N_STREAM) { s = c[i].id; o = c[i].sub; } else if (x.kind == N_AW) { s = x.p; o = x.q + c[i].sub; } else { ok = false; break; }
                if (i == 0) { st = s; off = o; } else if (s != st || o != off + i) ok = false;
            }
            if (ok) { V r = mkAW(st, off, 8 * m); r.w = (u16)(8 * n); r.ext = X_Z; return r; }
        }
    }
    // expand nested concatenations and store
    u32 off = cellSlots(n); u8 ta = 0;
    for (unsigned i = 0; i < n; i++) {
        Cell x = c[i];
        if (x.id >= 2 && nodes[x.id].kind == N_CAT) x = cellPool[nodes[x.id].p + x.sub];
        ta |= byteTaint(x); cellPool[off + i] = x;
    }
    return vnode(8 * n, newNode(N_CAT, 8 * n, ta | T_DATA, off, 0, 0));
}
void vToCells(const V &v0, Cell *out, unsigned n, bool be) {
    V v = v0;
    auto put = [&](unsigned i, Cell c) { out[be ? n - 1 - i : i] = c; };
    if (v.k == K_CONST) { for (unsigned i = 0; i < n; i++) put(i, Cell{CELL_CONST, i < 8 ? (u32)(v.b >> (8 * i) & 0xff) : 0}); return; }
    if (v.k == K_PTR) { u32 id = newNode(N_PTRV, 64, 0, v.a, v.b, h2(TG_PTR, v.a, v.b)); for (unsigned i = 0; i < n; i++) put(i, Cell{id, i}); return; }
    if (v.k == K_PTRX) { V o = opaque(64, 0); for (unsigned i = 0; i < n; i++) put(i, Cell{o.a, i}); return; }
    unsigned nw = nodes[v.a].w;
    if (v.w > nw && v.ext == X_S) {
        std::vector<Bit> b(v.w); bitsOf(v, b.data());
        if (nw % 8) {   // materialise
            for (unsigned i = 0; i < n; i++) { Bit o[8]; for (int k = 0; k < 8; k++) o[k] = i * 8 + k < v.w ? b[i * 8 + k] : bconst(0); V y = mkBits(o, 8); if (y.k == K_CONST) put(i, Cell{0, (u32)y.b}); else put(i, Cell{y.a, 0}); }
            return;
        }
        Bit o[8]; for (int k = 0; k < 8; k++) o[k] = b[nw - 1];
        V y = mkBits(o, 8);
        // mkBits turns a replicated bit into a 1-bit sign extension: spell the byte out
        if (y.k == K_NODE) { u32 off = bitSlots(o, 8); y = vnode(8, newNode(N_BITS, 8, nodes[y.a].taint, off, 0, 0)); }
        for (unsigned i = 0; i < n; i++) if (8 * i < nw) { if (nodes[v.a].kind == N_CAT) put(i, cellPool[nodes[v.a].p + i]); else put(i, Cell{v.a, i}); } else { if (y.k == K_CONST) put(i, Cell{0, (u32)y.b}); else put(i, Cell{y.a, 0}); }
        return;
    }
    for (unsigned i = 0; i < n; i++) {
        if (8 * i >= nw) put(i, Cell{CELL_CONST, 0});
        else if (nodes[v.a].kind == N_CAT) put(i, cellPool[nodes[v.a].p + i]);
        else put(i, Cell{v.a, i});
    }
}
void polyGC(std::function<void(std::function<void(u32)>)> roots) {
    std::vector<u8> mark(nodes.size()); std::vector<u32> work;
    auto m = [&](u32 id) { if (id < mark.size() && !mark[id]) { mark[id] = 1; if (nodes[id].kind == N_CAT) work.push_back(id); } };
    roots(m);
    while (!work.empty()) { u32 id = work.back(); work.pop_back(); for (unsigned i = 0; i < nodes[id].w / 8u; i++) { u32 c = cellPool[nodes[id].p + i].id; if (c >= 2) m(c); } }
    for (u32 id : polyIds) if (nodes[id].kind == N_POLY && !mark[id]) { nodes[id].kind = N_DEAD; freePoly.push_back(id); }
    for (u32 id = 2; id < nodes.size(); id++) if (!mark[id]) {
        Node &n = nodes[id];
        if (n.kind == N_BITS) freeBits[n.w].push_back(n.p);
        else if (n.kind == N_CAT) freeCells[n.w / 8u].push_back(n.p);
        else if (n.kind != N_AW && n.kind != N_UNI && n.kind != N_UNIL) continue;
        n.kind = N_NONE; freeNodes.push_back(id);
    }
    gcAllocs = 0;
}
std::string showV(const V &v) {
    char b[200];
    if (v.k == K_CONST) { snprintf(b, sizeof b, "0x%llx", (unsigned long long)v.b); return b; }
    if (v.k == K_PTR) { snprintf(b, sizeof b, "ptr(r%u+%lld)", v.a, (long long)v.b); return b; }
    if (v.k == K_PTRX) return "ptr[data]";
    const Node &n = nodes[v.a];
    switch (n.kind) {
    case N_AW: snprintf(b, sizeof b, "%s[%llu..%llu]", streamName(n.p).c_str(), (unsigned long long)n.q, (unsigned long long)n.q + n.w / 8 - 1); break;
    case N_UNI: snprintf(b, sizeof b, "fn#%u(%s word %u)", n.p, streamName((u32)(n.q >> 32)).c_str(), (unsigned)(n.q >> 16 & 0xffff)); break;
    case N_UNIL: snprintf(b, sizeof b, "fn#%u(%zu bits)", n.p, baseLists[n.q].size()); break;
    case N_POLY: snprintf(b, sizeof b, "poly(mod 2^%u, id %08x)", (unsigned)(n.q & 0xff), (unsigned)lanesHash(laneSlots[n.p].l, (unsigned)(n.q & 0xff))); break;
    case N_BITS: { std::string s = "bits{"; for (int k = n.w - 1; k >= 0 && k > (int)n.w - 17; k--) { const Bit &x = bitPool[n.p + k]; if (!x.f) s += x.c ? "1" : "0"; else if (x.kind == BK_STREAM) { snprintf(b, sizeof b, " %s%s.%u", x.c ? "~" : "", streamName(x.a).c_str(), x.b); s += b; } else s += x.kind == BK_TERM ? (terms[x.a].kind == TM_POLY ? " polybit" : terms[x.a].kind == TM_CONJ ? " conj" : " term") : x.kind == BK_TWO ? " xor2" : " xor*"; } return s + "}"; }
    case N_CAT: snprintf(b, sizeof b, "cat(%u bytes)", n.w / 8); break;
    case N_OPQ: snprintf(b, sizeof b, n.taint & T_UNINIT ? "uninitialised" : "opaque#%08x", (unsigned)n.h); break;
    default: snprintf(b, sizeof b, "node%u", n.kind);
    }
    return b;
}
std::string showCell(const Cell &c) {
    char b[80];
    if (c.id == CELL_CONST) { snprintf(b, sizeof b, "0x%02x", c.sub); return b; }
    if (c.id == CELL_UNINIT) return "uninitialised byte";
    return showV(byteV(c));
}
void domStats(FILE *f) {
    u64 k[16] = {0}; for (auto &n : nodes) k[n.kind & 15]++;
    fprintf(f, "nodes %zu (cap %zu)", nodes.size(), nodes.capacity()); for (int i = 0; i < 12; i++) fprintf(f, " k%d=%llu", i, (unsigned long long)k[i]);
    fprintf(f, "\nbitPool %zu*%zu terms %zu*%zu csets %zu conjs %zu*%zu polyBitLanes %zu cellPool %zu lanes %zu tabs %zu baseLists %zu\n", bitPool.size(), sizeof(Bit), terms.size(), sizeof(Term), csets.size(), conjs.size(), sizeof(ConjT), polyBitLanes.size(), cellPool.size(), laneSlots.size(), tabs.size(), baseLists.size());
}
void poolStats() { size_t tb = 0; for (auto &t : tabs) tb += t.val.size() * 8; size_t ck = 0; fprintf(stderr, "nodes %zu free %zu terms %zu csets %zu conjs %zu tabs %zu (%zu MB) memo %zu baseLists %zu lanes %zu bits %zu cells %zu\n", nodes.size(), freeNodes.size(), terms.size(), csets.size(), conjs.size(), tabs.size(), tb >> 20, tabMemo.size(), baseLists.size(), laneSlots.size(), bitPool.size(), cellPool.size()); (void)ck; }
