#include "spec.hpp"
static const int cdf640[] = {4643, 13363, 20579, 25843, 29227, 31145, 32103, 32525, 32689, 32745, 32762, 32766, 32767};
static const int cdf976[] = {5638, 15915, 23689, 28571, 31116, 32217, 32613, 32731, 32760, 32766, 32767};
static const int cdf1344[] = {9142, 23462, 30338, 32361, 32725, 32765, 32767};
static const Params P640 = {640, 15, 2, 16, 168, cdf640, 13, 9616, 19888, 9720, 16, "Frodo640"}, P976 = {976, 16, 3, 24, 136, cdf976, 11, 15632, 31296, 15744, 24, "Frodo976"}, P1344 = {1344, 16, 4, 32, 136, cdf1344, 7, 21520, 43088, 21632, 32, "Frodo1344"};
const Params *paramsFor(int n) { return n == 640 ? &P640 : n == 976 ? &P976 : n == 1344 ? &P1344 : nullptr; }

Bytes streamBytes(u32 s, u32 off, u32 n) { Bytes b(n); for (u32 i = 0; i < n; i++) b[i] = Cell{s, off + i}; return b; }
Bytes constBytes(const std::vector<u8> &x) { Bytes b; for (u8 c : x) b.push_back(Cell{CELL_CONST, c}); return b; }
Cell cellOf(const V &v) { Cell c; vToCells(v.w == 8 ? v : vzext(v, 8), &c, 1, false); return c; }
V xor8(const V &a, const V &b) { return binop(O_XOR, a, b); }
V le16(const Cell *c) { return cellsToV(c, 2, false); }
static Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto &b : l) r.insert(r.end(), b.begin(), b.end()); return r; }
static Bytes sub(const Bytes &b, size_t o, size_t n) { return Bytes(b.begin() + (long)o, b.begin() + (long)(o + n)); }

u32 permStream(const Cell *st) {
    u32 id0 = st[0].id; bool whole = id0 >= 2 && nodes[id0].kind == N_STREAM; u128 h;
    for (int i = 0; whole && i < 200; i++) if (st[i].id != id0 || st[i].sub != (u32)i) whole = false;
    u8 ta = 0;
    if (whole) { h = mixt(700, nodes[id0].h); ta = nodes[id0].taint; }
    else { h = 701; for (int i = 0; i < 200; i++) { h = mix(h * 3 + byteId(st[i])); ta |= byteTaint(st[i]); } }
    return newStream(h, 200, ta | T_DATA, 0xffffffffu);
}
Bytes spongeSpec(int rate, u8 pad, const Bytes &in, u64 outlen) {
    Cell st[200]; for (auto &c : st) c = Cell{CELL_CONST, 0};
    auto xorIn = [&](int i, const Cell &c) { if (st[i].id == CELL_CONST && st[i].sub == 0) { st[i] = c; return; } if (c.id == CELL_CONST && c.sub == 0) return; st[i] = cellOf(xor8(cellsToV(&st[i], 1, false), cellsToV(&c, 1, false))); };
    auto perm = [&]() { u32 s = permStream(st); for (int i = 0; i < 200; i++) st[i] = Cell{s, (u32)i}; };
    size_t pos = 0;
    while (in.size() - pos >= (size_t)rate) { for (int i = 0; i < rate; i++) xorIn(i, in[pos + (size_t)i]); perm(); pos += (size_t)rate; }
    int rem = (int)(in.size() - pos);
    std::vector<Cell> last((size_t)rate, Cell{CELL_CONST, 0});
    for (int i = 0; i < rem; i++) last[(size_t)i] = in[pos + (size_t)i];
    if (rem == rate - 1) last[(size_t)rem] = Cell{CELL_CONST, (u32)(pad | 0x80)}; else { last[(size_t)rem] = Cell{CELL_CONST, pad}; last[(size_t)rate - 1] = Cell{CELL_CONST, 0x80}; }
    for (int i = 0; i < rate; i++) xorIn(i, last[(size_t)i]);
    Bytes out;
    while (out.size() < outlen) { perm(); for (int i = 0; i < rate && out.size() < outlen; i++) out.push_back(st[i]); }
    return out;
}
static std::map<u32, Bytes> schedOrigin;
void schedRoots(std::function<void(u32)> mk) { for (auto &p : schedOrigin) for (auto &c : p.second) if (c.id >= 2) mk(c.id); }
u32 aesSchedStream(const Cell *key) {
    u128 h = 710; u8 ta = 0; for (int i = 0; i < 16; i++) { h = mix(h * 3 + byteId(key[i])); ta |= byteTaint(key[i]); }
    u32 s = newStream(h, 176, ta | T_DATA); schedOrigin[s] = Bytes(key, key + 16); return s;
}
bool schedKey(const Cell *sc, Cell *key) {
    u32 id = sc[0].id; auto it = schedOrigin.find(id); if (it == schedOrigin.end()) return false;
    for (int i = 0; i < 176; i++) if (sc[i].id != id || sc[i].sub != (u32)i) return false;
    for (int i = 0; i < 16; i++) key[i] = it->second[(size_t)i];
    return true;
}
u32 aesStream(const Cell *key, const Cell *blk) {
    static std::unordered_map<u64, u128> keyMemo;
    u128 hk; u8 ta = 0;
    bool simple = key[0].id >= 2 && nodes[key[0].id].kind == N_STREAM;
    for (int i = 1; simple && i < 16; i++) if (key[i].id != key[0].id || key[i].sub != key[0].sub + (u32)i) simple = false;
    u64 kk = ((u64)key[0].id << 32) | key[0].sub;
    auto it = simple ? keyMemo.find(kk) : keyMemo.end();
    if (it != keyMemo.end()) hk = it->second;
    else { hk = 720; for (int i = 0; i < 16; i++) hk = mix(hk * 3 + byteId(key[i])); if (simple) keyMemo[kk] = hk; }
    for (int i = 0; i < 16; i++) ta |= byteTaint(key[i]) | byteTaint(blk[i]);
    bool allc = true; u128 cb = 0; for (int i = 0; i < 16; i++) if (blk[i].id != CELL_CONST) allc = false; else cb |= (u128)blk[i].sub << (8 * i);
    u128 h = mix(hk + 1);
    if (allc) h = mix(h ^ mixt(721, cb)); else for (int i = 0; i < 16; i++) h = mix(h * 3 + byteId(blk[i]));
    return newStream(h, 16, ta | T_DATA);
}
// ------------------------------------------------------------ FIPS 202 and FIPS 197 on bits
void keccakBits(std::vector<Bit> &A) {      // bit index 64*(5y+x)+z
    auto idx = [](int x, int y, int z) { return (size_t)(64 * (5 * ((y + 5) % 5) + ((x + 5) % 5)) + ((z % 64 + 64) % 64)); };
    u8 lfsr = 1;
    auto rc = [&]() { bool r = lfsr & 1; lfsr = (u8)((lfsr << 1) ^ ((lfsr >> 7) ? 0x71 : 0)); return r; };
    for (int round = 0; round < 24; round++) {
        std::vector<Bit> C(320), B(1600, bconst(0));
        for (int x = 0; x < 5; x++) for (int z = 0; z < 64; z++) { Bit b = A[idx(x, 0, z)]; for (int y = 1; y < 5; y++) b = bxor(b, A[idx(x, y, z)]); C[(size_t)(64 * x + z)] = b; }
        for (int x = 0; x < 5; x++) for (int z = 0; z < 64; z++) { Bit d = bxor(C[(size_t)(64 * ((x + 4) % 5) + z)], C[(size_t)(64 * ((x + 1) % 5) + (z + 63) % 64)]); for (int y = 0; y < 5; y++) A[idx(x, y, z)] = bxor(A[idx(x, y, z)], d); }
        // rho
        std::vector<Bit> R = A; { int x = 1, y = 0; for (int t = 0; t < 24; t++) { for (int z = 0; z < 64; z++) R[idx(x, y, z)] = A[idx(x, y, z - (t + 1) * (t + 2) / 2)]; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; } }
        // pi
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) for (int z = 0; z < 64; z++) B[idx(x, y, z)] = R[idx(x + 3 * y, x, z)];
        // chi
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) for (int z = 0; z < 64; z++) A[idx(x, y, z)] = bxor(B[idx(x, y, z)], band(bnot(B[idx(x + 1, y, z)]), B[idx(x + 2, y, z)]));
        // iota: rc[t] with t = j + 7*round, j = 0..6
        for (int j = 0; j < 7; j++) if (rc()) A[idx(0, 0, (1 << j) - 1)] = bnot(A[idx(0, 0, (1 << j) - 1)]);
    }
}
V sboxV(const V &x); V xtimeV(const V &x);
void aesBits(int nk, const V *key, const V *in, V *out) {
    int nr = nk + 6; std::vector<V> w((size_t)(16 * (nr + 1)));
    for (int i = 0; i < 4 * nk; i++) w[(size_t)i] = key[i];
    u8 rcon = 1;
    for (int i = nk; i < 4 * (nr + 1); i++) {
        V t[4]; for (int k = 0; k < 4; k++) t[k] = w[(size_t)(4 * (i - 1) + k)];
        if (i % nk == 0) { V t0 = t[0]; t[0] = xor8(sboxV(t[1]), vconst(8, rcon)); t[1] = sboxV(t[2]); t[2] = sboxV(t[3]); t[3] = sboxV(t0); rcon = (u8)((rcon << 1) ^ ((rcon >> 7) * 0x1b)); }
        else if (nk > 6 && i % nk == 4) for (auto &x : t) x = sboxV(x);
        for (int k = 0; k < 4; k++) w[(size_t)(4 * i + k)] = xor8(w[(size_t)(4 * (i - nk) + k)], t[k]);
    }
    V s[16]; for (int i = 0; i < 16; i++) s[i] = xor8(in[i], w[(size_t)i]);
    for (int r = 1; r <= nr; r++) {
        V t[16];
        for (int c = 0; c < 4; c++) for (int q = 0; q < 4; q++) t[4 * c + q] = sboxV(s[4 * ((c + q) % 4) + q]);
        for (int c = 0; c < 4; c++) for (int q = 0; q < 4; q++) {
            const V *a = t + 4 * c;
            s[4 * c + q] = r == nr ? a[q] : xor8(xor8(xtimeV(xor8(a[q], a[(q + 1) & 3])), a[(q + 1) & 3]), xor8(a[(q + 2) & 3], a[(q + 3) & 3]));
        }
        for (int i = 0; i < 16; i++) s[i] = xor8(s[i], w[(size_t)(16 * r + i)]);
    }
    for (int i = 0; i < 16; i++) out[i] = s[i];
}
// ------------------------------------------------------------ FrodoKEM
V sampleSpec(const Params &p, const V &word) {
    const Params *q = &p;
    return uniFromWord(word, 900000 + (u64)p.N, 16, [q](u64 x) { u64 t = x >> 1, e = 0; for (int i = 0; i < q->ncdf - 1; i++) if (t > (u64)q->cdf[i]) e++; return (x & 1 ? (0 - e) : e) & 0xffff; });
}
Bytes packSpec(const std::vector<V> &w, int lsb) {
    size_t nbits = w.size() * (size_t)lsb; std::vector<Bit> o((nbits + 7) / 8 * 8, bconst(0)); Bit b[64];
    for (size_t i = 0; i < w.size(); i++) { bitsOf(w[i], b); for (int k = 0; k < lsb; k++) { size_t t = i * (size_t)lsb + (size_t)k; o[t / 8 * 8 + (7 - t % 8)] = b[lsb - 1 - k]; } }
    Bytes r; for (size_t i = 0; i < o.size(); i += 8) r.push_back(cellOf(mkBits(&o[i], 8)));
    return r;
}
std::vector<V> unpackSpec(const Bytes &by, size_t n, int lsb) {
    std::vector<Bit> bits(by.size() * 8); for (size_t i = 0; i < by.size(); i++) { V v = cellsToV(&by[i], 1, false); bitsOf(v, &bits[8 * i]); }
    std::vector<V> r;
    for (size_t i = 0; i < n; i++) { Bit b[16]; for (int k = 0; k < 16; k++) b[k] = bconst(0); for (int k = 0; k < lsb; k++) { size_t t = i * (size_t)lsb + (size_t)k; b[lsb - 1 - k] = bits[t / 8 * 8 + (7 - t % 8)]; } r.push_back(mkBits(b, 16)); }
    return r;
}
std::vector<V> KemSpec::rowA(const Bytes &seedA, int i) {
    std::vector<V> r((size_t)P.N);
    if (shakeA) {
        Bytes in = cat({constBytes({(u8)(i & 0xff), (u8)(i >> 8)}), seedA}); Bytes o = spongeSpec(168, 0x1f, in, 2 * (u64)P.N);
        for (int j = 0; j < P.N; j++) r[(size_t)j] = le16(&o[(size_t)(2 * j)]);
    } else {
        for (int j = 0; j < P.N; j += 8) {
            Cell blk[16]; for (auto &c : blk) c = Cell{CELL_CONST, 0};
            blk[0].sub = i & 0xff; blk[1].sub = (u32)i >> 8; blk[2].sub = j & 0xff; blk[3].sub = (u32)j >> 8;
            u32 s = aesStream(&seedA[0], blk);
            for (int k = 0; k < 8; k++) { Cell c[2] = {{s, (u32)(2 * k)}, {s, (u32)(2 * k + 1)}}; r[(size_t)(j + k)] = le16(c); }
        }
    }
    return r;
}
void KemSpec::addSecret(const Bytes &b) { for (auto &c : b) if (c.id != CELL_CONST) secret.insert(byteId(c)); }
void KemSpec::addSecretV(const V &v, unsigned w) { Cell c[8]; vToCells(v, c, w / 8, false); for (unsigned i = 0; i < w / 8; i++) if (c[i].id != CELL_CONST) secret.insert(byteId(c[i])); }
void KemSpec::keygen(u32 rnd) {
    size_t N = (size_t)P.N, CB = (size_t)P.CB;
    Bytes s = streamBytes(rnd, 0, P.CB), seedSE = streamBytes(rnd, P.CB, P.CB), z = streamBytes(rnd, 2 * P.CB, 16);
    Bytes seedA = spongeSpec(P.rate, 0x1f, z, 16);
    Bytes r = spongeSpec(P.rate, 0x1f, cat({constBytes({0x5f}), seedSE}), 4 * N * 8);
    addSecret(s); addSecret(seedSE); addSecret(r);
    std::vector<V> S(8 * N), E(8 * N);
    for (size_t i = 0; i < 8 * N; i++) { S[i] = sampleSpec(P, le16(&r[2 * i])); E[i] = sampleSpec(P, le16(&r[16 * N + 2 * i])); addSecretV(S[i], 16); addSecretV(E[i], 16); }
    std::vector<V> B(8 * N);
    for (size_t i = 0; i < N; i++) {
        auto a = rowA(seedA, (int)i);
        for (size_t k = 0; k < 8; k++) { Poly p; polyZero(p); polyAddV(p, E[i * 8 + k], 1); for (size_t j = 0; j < N; j++) polyAddMul(p, a[j], S[k * N + j], 1); muls += N; B[i * 8 + k] = polyV(p, (unsigned)P.logq, (unsigned)P.logq, false); }
    }
    Bytes b = packSpec(B, P.logq);
    pk = cat({seedA, b});
    Bytes St; for (size_t i = 0; i < 8 * N; i++) { Cell c[2]; vToCells(S[i], c, 2, false); St.push_back(c[0]); St.push_back(c[1]); }
    Bytes pkh = spongeSpec(P.rate, 0x1f, pk, CB);
    sk = cat({s, pk, St, pkh});
}
Bytes KemSpec::encrypt(const Bytes &seedA, const std::vector<V> &B, const Bytes &seedSE, const Bytes &mu) {
    size_t N = (size_t)P.N; unsigned q = (unsigned)P.logq;
    Bytes r = spongeSpec(P.rate, 0x1f, cat({constBytes({0x96}), seedSE}), 2 * (2 * 8 * N + 64));
    addSecret(r);
    std::vector<V> S(8 * N), E(8 * N), Epp(64);
    for (size_t i = 0; i < 8 * N; i++) { S[i] = sampleSpec(P, le16(&r[2 * i])); E[i] = sampleSpec(P, le16(&r[16 * N + 2 * i])); addSecretV(S[i], 16); addSecretV(E[i], 16); }
    for (size_t i = 0; i < 64; i++) { Epp[i] = sampleSpec(P, le16(&r[32 * N + 2 * i])); addSecretV(Epp[i], 16); }
    std::vector<Poly> Bp(8 * N); for (auto &p : Bp) polyZero(p);
    for (size_t i = 0; i < 8 * N; i++) polyAddV(Bp[i], E[i], 1);
    for (size_t i = 0; i < N; i++) { auto a = rowA(seedA, (int)i); for (size_t k = 0; k < 8; k++) { for (size_t j = 0; j < N; j++) polyAddMul(Bp[k * N + j], S[k * N + i], a[j], 1); muls += N; } }
    std::vector<V> w(8 * N); for (size_t i = 0; i < 8 * N; i++) w[i] = polyV(Bp[i], q, q, false);
    Bytes c1 = packSpec(w, P.logq);
    Bit mb[64 * 8]; for (size_t i = 0; i < mu.size(); i++) bitsOf(cellsToV(&mu[i], 1, false), mb + 8 * i);
    std::vector<V> C(64);
    for (size_t k = 0; k < 8; k++) for (size_t i = 0; i < 8; i++) {
        Poly p; polyZero(p); polyAddV(p, Epp[k * 8 + i], 1);
        for (size_t j = 0; j < N; j++) polyAddMul(p, S[k * N + j], B[j * 8 + i], 1);
        for (V t : {polyV(p, 16, 16, false), vzext(polyV(p, q, q, false), 16)}) { Cell c[2]; vToCells(t, c, 2, false); secret.insert(byteId(c[1])); }    // the low byte is part of the ciphertext
        Bit e[16]; for (auto &x : e) x = bconst(0);
        for (int l = 0; l < P.B; l++) e[P.logq - P.B + l] = mb[(k * 8 + i) * (size_t)P.B + (size_t)l];
        polyAddV(p, mkBits(e, 16), 1);
        C[k * 8 + i] = polyV(p, q, q, false);
    }
    return cat({c1, packSpec(C, P.logq)});
}
void KemSpec::encaps(const Bytes &pkIn, u32 rnd) {
    size_t CB = (size_t)P.CB, N = (size_t)P.N;
    Bytes mu = streamBytes(rnd, 0, P.CB);      // |mu| = 64*B/8 = CB
    Bytes pkh = spongeSpec(P.rate, 0x1f, pkIn, CB);
    Bytes g = spongeSpec(P.rate, 0x1f, cat({pkh, mu}), 2 * CB);
    addSecret(mu); addSecret(g);
    auto B = unpackSpec(sub(pkIn, 16, pkIn.size() - 16), 8 * N, P.logq);
    ct = encrypt(sub(pkIn, 0, 16), B, sub(g, 0, CB), mu);
    ss = spongeSpec(P.rate, 0x1f, cat({ct, sub(g, CB, CB)}), CB);
    addSecret(ss);
}
void KemSpec::decaps(const Bytes &skIn, const Bytes &ctIn) {
    size_t CB = (size_t)P.CB, N = (size_t)P.N; unsigned q = (unsigned)P.logq; size_t c1l = 8 * N * q / 8;
    Bytes s = sub(skIn, 0, CB), pkI = sub(skIn, CB, (size_t)P.pk), St = sub(skIn, CB + (size_t)P.pk, 16 * N), pkh = sub(skIn, CB + (size_t)P.pk + 16 * N, CB);
    addSecret(s); addSecret(St);
    std::vector<V> S(8 * N); for (size_t i = 0; i < 8 * N; i++) S[i] = le16(&St[2 * i]);
    auto Bp = unpackSpec(sub(ctIn, 0, c1l), 8 * N, P.logq), C = unpackSpec(sub(ctIn, c1l, ctIn.size() - c1l), 64, P.logq);
    std::vector<Bit> mb(64 * (size_t)P.B);
    for (size_t i = 0; i < 8; i++) for (size_t j = 0; j < 8; j++) {
        Poly t; polyZero(t); for (size_t k = 0; k < N; k++) polyAddMul(t, Bp[i * N + k], S[j * N + k], 1);
        addSecretV(polyV(t, 16, 16, false), 16); addSecretV(vzext(polyV(t, q, q, false), 16), 16);
        Poly p; polyZero(p); polyAddV(p, C[i * 8 + j], 1); for (size_t k = 0; k < N; k++) polyAddMul(p, Bp[i * N + k], S[j * N + k], 0xffff);
        addSecretV(polyV(p, 16, 16, false), 16); addSecretV(vzext(polyV(p, q, q, false), 16), 16);
        polyAddV(p, vconst(16, 1u << (P.logq - P.B - 1)), 1);
        Bit b[16]; bitsOf(polyV(p, q, q, false), b);
        for (int l = 0; l < P.B; l++) mb[(i * 8 + j) * (size_t)P.B + (size_t)l] = b[P.logq - P.B + l];
    }
    Bytes mu; for (size_t i = 0; i < mb.size(); i += 8) mu.push_back(cellOf(mkBits(&mb[i], 8)));
    Bytes g = spongeSpec(P.rate, 0x1f, cat({pkh, mu}), 2 * CB);
    addSecret(mu); addSecret(g);
    auto B = unpackSpec(sub(pkI, 16, pkI.size() - 16), 8 * N, P.logq);
    Bytes ct2 = encrypt(sub(pkI, 0, 16), B, sub(g, 0, CB), mu);
    Bit eq = bconst(1);
    for (size_t i = 0; i < ctIn.size(); i++) { Bit a[8], b[8]; bitsOf(cellsToV(&ctIn[i], 1, false), a); bitsOf(cellsToV(&ct2[i], 1, false), b); for (int k = 0; k < 8; k++) eq = band(eq, bnot(bxor(a[k], b[k]))); }
    Bytes kk; for (size_t i = 0; i < CB; i++) { Bit a[8], b[8], o[8]; bitsOf(cellsToV(&g[CB + i], 1, false), a); bitsOf(cellsToV(&s[i], 1, false), b); for (int k = 0; k < 8; k++) o[k] = bmux(eq, a[k], b[k]); kk.push_back(cellOf(mkBits(o, 8))); }
    addSecret(kk);
    ss = spongeSpec(P.rate, 0x1f, cat({ctIn, kk}), CB);
    addSecret(ss);
}
