// The FrodoKEM specification (and FIPS 197 / FIPS 202) written independently of the code under analysis, in the same abstract domain.
#pragma once
#include "interp.hpp"
struct Params { int N, logq, B, CB, rate; const int *cdf; int ncdf; int pk, sk, ct, ss; const char *name; };
const Params *paramsFor(int n);
typedef std::vector<Cell> Bytes;
Bytes streamBytes(u32 s, u32 off, u32 n);
Bytes constBytes(const std::vector<u8> &b);
u32 permStream(const Cell *st200);                         // opaque Keccak-f[1600]
Bytes spongeSpec(int rate, u8 pad, const Bytes &in, u64 outlen);
u32 aesStream(const Cell *key16, const Cell *blk16);       // opaque AES-128 block
u32 aesSchedStream(const Cell *key16);
bool schedKey(const Cell *sched, Cell *key16);
void keccakBits(std::vector<Bit> &st);                     // FIPS 202 permutation on 1600 bits
void aesBits(int nk, const V *key, const V *in, V *out);   // FIPS 197 on bytes
V sampleSpec(const Params &p, const V &word);
V le16(const Cell *c);
struct KemSpec {
    const Params &P; bool shakeA;
    Bytes pk, sk, ct, ss;            // expected outputs
    IdSet secret;
    std::vector<Poly> polys;
    KemSpec(const Params &p, bool sh) : P(p), shakeA(sh) {}
    void keygen(u32 rnd); void encaps(const Bytes &pkIn, u32 rnd); void decaps(const Bytes &skIn, const Bytes &ctIn);
    std::vector<V> rowA(const Bytes &seedA, int i);
    void addSecret(const Bytes &b); void addSecretV(const V &v, unsigned w);
    Bytes encrypt(const Bytes &seedA, const std::vector<V> &B, const Bytes &seedSE, const Bytes &mu);     // returns ct bytes
    u64 muls = 0;
};
Bytes packSpec(const std::vector<V> &w, int lsb);
std::vector<V> unpackSpec(const Bytes &b, size_t n, int lsb);
V xor8(const V &a, const V &b);
Cell cellOf(const V &v8);
