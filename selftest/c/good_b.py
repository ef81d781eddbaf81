# behaviour-preserving edits, set B: other shapes of the same code
E = []
def e(f, old, new, cnt=1): E.append((f, old, new, cnt))

# --- kem.c: keypair with one exit, enc with a workspace struct, dec comparing re-encoded bytes
e("src/kem.c", ("    // Generate the secret value s, the seed for S and E", "    // Generate S and E, and compute B = A*S + E."), '''    int ret = 1;

    // Generate the secret value s, the seed for S and E, and the seed for the seed for A. Add seed_A to the public key
    if (randombytes(randomness, sizeof(randomness)))
        goto cleanup;
    shake(pk_seedA, BYTES_SEED_A, randomness_z, BYTES_SEED_A);

''')
e("src/kem.c", '''    // Cleanup:
    clear_bytes((uint8_t *)S, PARAMS_N*PARAMS_NBAR*sizeof(uint16_t));
    clear_bytes((uint8_t *)E, PARAMS_N*PARAMS_NBAR*sizeof(uint16_t));
    clear_bytes(randomness, 2*CRYPTO_BYTES);
    clear_bytes(shake_input_seedSE, 1 + CRYPTO_BYTES);
#ifdef DO_VALGRIND_CHECK
    VALGRIND_MAKE_MEM_DEFINED(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A);
#endif
    return 0;
''', '''    ret = 0;
cleanup:
    clear_bytes(randomness, sizeof(randomness));
    clear_bytes(shake_input_seedSE, sizeof(shake_input_seedSE));
    clear_bytes((uint8_t *)S, sizeof(S));
    return ret;
''')
e("src/kem.c", '''    memcpy(&shake_input_seedSE[1], randomness_seedSE, CRYPTO_BYTES);
    shake((uint8_t*)S,''', '''    for (uint8_t *dst = shake_input_seedSE + 1, *src = randomness_seedSE; src < randomness_seedSE + CRYPTO_BYTES; )
        *dst++ = *src++;
    shake((uint8_t*)S,''')
e("src/kem.c", '''    for (size_t i = 0; i < PARAMS_N * PARAMS_NBAR; i++) {
        S[i] = UINT16_TO_LE(S[i]);
    }
    memcpy(sk_S, S, 2*PARAMS_N*PARAMS_NBAR);
''', '''    for (size_t i = 0; i < PARAMS_N * PARAMS_NBAR; i++) {
        sk_S[2*i] = (uint8_t)S[i];
        sk_S[2*i + 1] = (uint8_t)(S[i] >> 8);
    }
''')
e("src/kem.c", ("int crypto_kem_enc(", "int crypto_kem_dec("), '''typedef struct {
    ALIGN_HEADER(32) uint16_t Sp[PARAMS_N*PARAMS_NBAR] ALIGN_FOOTER(32);
    ALIGN_HEADER(32) uint16_t Ep[PARAMS_N*PARAMS_NBAR] ALIGN_FOOTER(32);
    uint16_t Epp[PARAMS_NBAR*PARAMS_NBAR];
    uint16_t V[PARAMS_NBAR*PARAMS_NBAR];
    uint16_t C[PARAMS_NBAR*PARAMS_NBAR];
    uint8_t pkh[BYTES_PKHASH];
    uint8_t mu[BYTES_MU];
    uint8_t seedSE[CRYPTO_BYTES];
    uint8_t k[CRYPTO_BYTES];
    uint8_t xof_in[1 + CRYPTO_BYTES];
    uint8_t Fin[CRYPTO_CIPHERTEXTBYTES + CRYPTO_BYTES];
    uint16_t noise[(2*PARAMS_N+PARAMS_NBAR)*PARAMS_NBAR];
} enc_work_t;


int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk)
{ // FrodoKEM's key encapsulation
    const size_t n = PARAMS_N*PARAMS_NBAR, m = PARAMS_NBAR*PARAMS_NBAR;
    const size_t c1len = (PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8;
    enc_work_t w;
    uint16_t B[PARAMS_N*PARAMS_NBAR];
    ALIGN_HEADER(32) uint16_t Bp[PARAMS_N*PARAMS_NBAR] ALIGN_FOOTER(32);
    size_t i;

    if (randombytes(w.mu, BYTES_MU) != 0)
        return 1;
    shake(w.pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);
    shake(w.seedSE, 2*CRYPTO_BYTES, w.pkh, BYTES_PKHASH + BYTES_MU);       // seedSE || k

    memcpy(w.xof_in + 1, w.seedSE, CRYPTO_BYTES);
    w.xof_in[0] = 0x96;
    shake((uint8_t*)w.noise, sizeof(w.noise), w.xof_in, sizeof(w.xof_in));
    for (i = 0; i < n; i++) w.Sp[i] = LE_TO_UINT16(w.noise[i]);
    for (i = 0; i < n; i++) w.Ep[i] = LE_TO_UINT16(w.noise[n + i]);
    for (i = 0; i < m; i++) w.Epp[i] = LE_TO_UINT16(w.noise[2*n + i]);
    frodo_sample_n(w.Epp, m);
    frodo_sample_n(w.Ep, n);
    frodo_sample_n(w.Sp, n);

    frodo_unpack(B, n, pk + BYTES_SEED_A, CRYPTO_PUBLICKEYBYTES - BYTES_SEED_A, PARAMS_LOGQ);
    frodo_mul_add_sb_plus_e(w.V, B, w.Sp, w.Epp);
    frodo_mul_add_sa_plus_e(Bp, w.Sp, w.Ep, pk);

    frodo_key_encode(w.C, (uint16_t*)w.mu);
    frodo_add(w.C, w.C, w.V);
    frodo_pack(ct, c1len, Bp, n, PARAMS_LOGQ);
    frodo_pack(ct + c1len, CRYPTO_CIPHERTEXTBYTES - c1len, w.C, m, PARAMS_LOGQ);

    memcpy(w.Fin, ct, CRYPTO_CIPHERTEXTBYTES);
    memcpy(w.Fin + CRYPTO_CIPHERTEXTBYTES, w.k, CRYPTO_BYTES);
    shake(ss, CRYPTO_BYTES, w.Fin, sizeof(w.Fin));

    clear_bytes((uint8_t *)&w, sizeof(w));
    return 0;
}


''')
e("src/kem.c", '''    // Reducing BBp modulo q
    for (int i = 0; i < PARAMS_N*PARAMS_NBAR; i++) BBp[i] = BBp[i] & ((1 << PARAMS_LOGQ)-1);
''', '')
e("src/kem.c", '''    int8_t selector = ct_verify(Bp, BBp, PARAMS_N*PARAMS_NBAR) | ct_verify(C, CC, PARAMS_NBAR*PARAMS_NBAR);
''', '''    uint8_t ct2[CRYPTO_CIPHERTEXTBYTES];
    uint32_t acc = 0;
    frodo_pack(ct2, (PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8, BBp, PARAMS_N*PARAMS_NBAR, PARAMS_LOGQ);
    frodo_pack(ct2 + (PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8, (PARAMS_LOGQ*PARAMS_NBAR*PARAMS_NBAR)/8, CC, PARAMS_NBAR*PARAMS_NBAR, PARAMS_LOGQ);
    for (size_t i = 0; i < CRYPTO_CIPHERTEXTBYTES; i++) acc |= (uint32_t)(ct[i] ^ ct2[i]);
    int8_t selector = (int8_t)((int32_t)(0u - acc) >> 31);
''')
# --- noise.c
e("src/noise.c", ("    unsigned int i, j;", None), '''    size_t i;

    for (i = n; i-- > 0; ) {
        const uint16_t t = s[i] >> 1;
        const uint16_t neg = (uint16_t)(0 - (s[i] & 1));
        uint16_t mag = 0;

        for (const uint16_t *c = CDF_TABLE; c < CDF_TABLE + CDF_TABLE_LEN - 1; c++) {
            mag = (uint16_t)(mag + (*c < t));
        }
        s[i] = (uint16_t)((mag ^ neg) - neg);
    }
}
''')
for n, l in (("640", 13), ("976", 11), ("1344", 7)):
    e(f"src/frodo{n}.c", "uint16_t CDF_TABLE[", "static const uint16_t CDF_TABLE[")
    e(f"src/frodo{n}.c", f"uint16_t CDF_TABLE_LEN = {l};", "enum { CDF_TABLE_LEN = sizeof(CDF_TABLE)/sizeof(CDF_TABLE[0]) };")
# --- util.c
e("src/util.c", ("void frodo_pack(", "void frodo_unpack("), '''void frodo_pack(unsigned char *out, const size_t outlen, const uint16_t *in, const size_t inlen, const unsigned char lsb) 
{ // Pack the input uint16 vector into a char output vector, copying lsb bits from each input element. 
  // If inlen * lsb / 8 > outlen, only outlen * 8 bits are copied.
    const size_t nbits = inlen * lsb;

    for (size_t i = 0; i < outlen; i++) {
        unsigned char b = 0;
        for (size_t bit = 8*i; bit < 8*i + 8 && bit < nbits; bit++) {
            const size_t word = bit / lsb, pos = lsb - 1 - bit % lsb;
            b |= (unsigned char)(((in[word] >> pos) & 1) << (7 - bit % 8));
        }
        out[i] = b;
    }
}


''')
e("src/util.c", ("void frodo_unpack(", "int8_t ct_verify("), '''void frodo_unpack(uint16_t *out, const size_t outlen, const unsigned char *in, const size_t inlen, const unsigned char lsb) 
{ // Unpack the input char vector into a uint16_t output vector, copying lsb bits
  // for each output element from input. outlen must be at least ceil(inlen * 8 / lsb).
    size_t bit = 0;

    for (size_t i = 0; i < outlen; i++) {
        uint16_t v = 0;
        for (int pos = lsb - 1; pos >= 0; pos--, bit++) {
            v = (uint16_t)(v << 1);
            if (bit < 8*inlen)
                v |= (in[bit / 8] >> (7 - bit % 8)) & 1;
        }
        out[i] = v;
    }
}


''')
e("src/util.c", '''    uint16_t r = 0;

    for (size_t i = 0; i < len; i++) {
        r |= a[i] ^ b[i];
    }

    r = (-(int16_t)(r >> 1) | -(int16_t)(r & 1)) >> (8*sizeof(uint16_t)-1);
    return (int8_t)r;
''', '''    uint64_t r = 0;
    size_t i;

    for (i = 0; i + 4 <= len; i += 4) {
        r |= (uint64_t)(a[i] ^ b[i]) | (uint64_t)(a[i+1] ^ b[i+1]) << 16;
        r |= (uint64_t)(a[i+2] ^ b[i+2]) << 32 | (uint64_t)(a[i+3] ^ b[i+3]) << 48;
    }
    for (; i < len; i++)
        r |= a[i] ^ b[i];
    r |= r >> 32;
    r &= 0xFFFFFFFF;
    return (int8_t)(~((r - 1) >> 63) + 1) == 0 ? -1 : 0;
''' if 0 else '''    uint64_t r = 0;
    size_t i;

    for (i = 0; i + 4 <= len; i += 4) {
        r |= (uint64_t)(a[i] ^ b[i]) | (uint64_t)(a[i+1] ^ b[i+1]) << 16;
        r |= (uint64_t)(a[i+2] ^ b[i+2]) << 32 | (uint64_t)(a[i+3] ^ b[i+3]) << 48;
    }
    for (; i < len; i++)
        r |= a[i] ^ b[i];
    r |= r >> 32;
    r &= 0xFFFFFFFF;
    return (int8_t)(uint8_t)(((r - 1) >> 63) - 1);
''')
e("src/util.c", '''    for (size_t i = 0; i < len; i++) {
        r[i] = (~selector & a[i]) | (selector & b[i]);
    }
''', '''    const uint8_t take_b = (uint8_t)selector, take_a = (uint8_t)~take_b;

    for (size_t i = 0; i < len; i++) {
        r[i] = (uint8_t)((a[i] & take_a) + (b[i] & take_b));
    }
''')
e("src/util.c", '''    volatile uint8_t *v = mem; 

    for (size_t i = 0; i < n; i++) {
        v[i] = 0;
    }
''', '''    memset(mem, 0, n);
    __asm__ __volatile__("" : : "r"(mem) : "memory");
''')
# --- fips202.c: compact permutation
e("src/sha3/fips202.c", ("void KeccakF1600_StatePermute(", "#include <string.h>"), '''void KeccakF1600_StatePermute(uint64_t * state)
{
  static const unsigned char rot[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
  static const unsigned char lane[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
  int round, x, y;

  for (round = 0; round < NROUNDS; round++) {
    uint64_t c[5], t;

    for (x = 0; x < 5; x++)
      c[x] = state[x] ^ state[x + 5] ^ state[x + 10] ^ state[x + 15] ^ state[x + 20];
    for (x = 0; x < 5; x++) {
      t = c[(x + 4) % 5] ^ ROL(c[(x + 1) % 5], 1);
      for (y = 0; y < 25; y += 5)
        state[x + y] ^= t;
    }
    t = state[1];
    for (x = 0; x < 24; x++) {
      c[0] = state[lane[x]];
      state[lane[x]] = ROL(t, rot[x]);
      t = c[0];
    }
    for (y = 0; y < 25; y += 5) {
      for (x = 0; x < 5; x++)
        c[x] = state[y + x];
      for (x = 0; x < 5; x++)
        state[y + x] = c[x] ^ (~c[(x + 1) % 5] & c[(x + 2) % 5]);
    }
    state[0] ^= KeccakF_RoundConstants[round];
  }
}


''')
e("src/sha3/fips202.c", '''  unsigned long long i;
  unsigned char t[200];
 
  while (mlen >= r) 
  {
    for (i = 0; i < r / 8; ++i)
      s[i] ^= load64(m + 8 * i);
    
    KeccakF1600_StatePermute(s);
    mlen -= r;
    m += r;
  }

  for (i = 0; i < r; ++i)
    t[i] = 0;
  for (i = 0; i < mlen; ++i)
    t[i] = m[i];
  t[i] = p;
  t[r - 1] |= 128;
  for (i = 0; i < r / 8; ++i)
    s[i] ^= load64(t + 8 * i);
''', '''  // byte-wise absorption
  unsigned int pos = 0;

  for (unsigned long long i = 0; i < mlen; i++) {
    s[pos / 8] ^= (uint64_t)m[i] << 8 * (pos % 8);
    if (++pos == r) {
      KeccakF1600_StatePermute(s);
      pos = 0;
    }
  }
  s[pos >> 3] ^= (uint64_t)p << (8 * (pos & 7));
  s[(r >> 3) - 1] ^= (uint64_t)1 << 63;
''')
e("src/sha3/fips202.c", '''  keccak_squeezeblocks(output, nblocks, s, SHAKE128_RATE);

  output += nblocks*SHAKE128_RATE;
  outlen -= nblocks*SHAKE128_RATE;

  if (outlen) 
  {
    keccak_squeezeblocks(t, 1, s, SHAKE128_RATE);
    for (i = 0; i < outlen; i++)
      output[i] = t[i];
  }
''', '''  (void)nblocks;
  for (unsigned long long done = 0; done < outlen; done += SHAKE128_RATE) {
    const unsigned long long left = outlen - done;
    keccak_squeezeblocks(t, 1, s, SHAKE128_RATE);
    for (i = 0; i < MIN(left, SHAKE128_RATE); i++)
      output[done + i] = t[i];
  }
''')
# --- fips202x4.c
e("src/sha3/fips202x4.c", ("static void keccak_absorb4x(", "static void keccak_squeezeblocks4x("), '''static void keccak_absorb4x(__m256i *s, unsigned int r, const unsigned char *m0, const unsigned char *m1, const unsigned char *m2, const unsigned char *m3, 
                            unsigned long long int mlen, unsigned char p)
{
  const unsigned char *m[4] = {m0, m1, m2, m3};
  unsigned long long *ss = (unsigned long long *)s;
  unsigned int lane;
  unsigned long long i;

  while (mlen >= r) 
  {
    for (i = 0; i < r / 8; ++i)
      for (lane = 0; lane < 4; lane++)
        ss[4*i+lane] ^= load64(m[lane] + 8 * i);
    KeccakF1600_StatePermute4x(s);
    mlen -= r;
    for (lane = 0; lane < 4; lane++)
      m[lane] += r;
  }
  for (lane = 0; lane < 4; lane++)
  {
    unsigned char t[200] = {0};
    for (i = 0; i < mlen; ++i)
      t[i] = m[lane][i];
    t[mlen] = p;
    t[r - 1] |= 128;
    for (i = 0; i < r / 8; ++i)
      ss[4*i+lane] ^= load64(t + 8 * i);
  }
}


''')
# --- aes_c.c
e("src/aes/aes_c.c", ("static const uint8_t Rcon[11]", "// This function produces Nb(Nr+1) round keys."), '''static uint8_t getSBoxValue(uint8_t num)
{
  return sbox[num];
}


static void expand(const uint8_t *Key, uint8_t *RoundKey, unsigned int nk, unsigned int nr)
{
  uint8_t rc = 1;
  unsigned int i, j;

  memcpy(RoundKey, Key, 4*nk);
  for (i = nk; i < 4*(nr + 1); i++) {
    const uint8_t *prev = RoundKey + 4*(i - 1);
    uint8_t t[4];
    for (j = 0; j < 4; j++) {
      if (i % nk == 0)
        t[j] = getSBoxValue(prev[(j + 1) & 3]);
      else if (nk > 6 && i % nk == 4)
        t[j] = getSBoxValue(prev[j]);
      else
        t[j] = prev[j];
    }
    if (i % nk == 0) {
      t[0] ^= rc;
      rc = (uint8_t)((rc << 1) ^ ((rc & 0x80) ? 0x1b : 0));
    }
    for (j = 0; j < 4; j++)
      RoundKey[4*i + j] = RoundKey[4*(i - nk) + j] ^ t[j];
  }
}


''')
e("src/aes/aes_c.c", ("void aes128_load_schedule_c(", "// This function produces Nb(Nr+1) round keys."), '''void aes128_load_schedule_c(uint8_t* Key, uint8_t* RoundKey) 
{
  expand(Key, RoundKey, 4, 10);
}


''')
e("src/aes/aes_c.c", ("void aes256_load_schedule_c(", "// This function adds the round key"), '''void aes256_load_schedule_c(const uint8_t* Key, uint8_t* RoundKey) 
{
  expand(Key, RoundKey, 8, 14);
}


''')
# --- macrify
M = "src/frodo_macrify.c"
e(M, "int frodo_mul_add_as_plus_e(", '''#if defined(USE_SHAKE128_FOR_A) && !defined(USE_AVX2)
static void gen_rows(uint16_t *rows, const int first, const int count, const uint8_t *seed_A)
{ // rows <- rows first..first+count-1 of A
    uint8_t in[2 + BYTES_SEED_A];

    memcpy(in + 2, seed_A, BYTES_SEED_A);
    for (int r = 0; r < count; r++) {
        in[0] = (uint8_t)(first + r);
        in[1] = (uint8_t)((first + r) >> 8);
        shake128((unsigned char*)(rows + r*PARAMS_N), (unsigned long long)(2*PARAMS_N), in, sizeof(in));
    }
}
#endif


int frodo_mul_add_as_plus_e(''')
e(M, ('''    uint8_t seed_A_separated[2 + BYTES_SEED_A];''', "#else"), '''    for (i = 0; i < PARAMS_N; i += 4) {
        gen_rows((uint16_t*)a_row, i, 4, seed_A);
''')
e(M, ('''    uint8_t seed_A_separated[2 + BYTES_SEED_A];''', "#else"), '''    for (i = 0; i < PARAMS_N; i+=8) {
        gen_rows(A, i, 8, seed_A);
''')
e(M, '''            for (q = 0; q < PARAMS_N; q++) {
                sum = e[j*PARAMS_N + q];
                for (p = 0; p < 8; p++) {
                    sum += sp[p] * A[p*PARAMS_N + q];
                }
                e[j*PARAMS_N + q] = sum;
            }
''', '''            for (q = 0; q < PARAMS_N; q++) {
                sum = out[j*PARAMS_N + q];
                for (p = 7; p >= 0; p--) {
                    sum += sp[p] * A[p*PARAMS_N + q];
                }
                out[j*PARAMS_N + q] = sum;
            }
''')
e(M, "acc = _mm256_load_si256((__m256i*)&e[j*PARAMS_N + q]);", "acc = _mm256_load_si256((__m256i*)&out[j*PARAMS_N + q]);")
e(M, "_mm256_store_si256((__m256i*)&e[j*PARAMS_N + q], acc);", "_mm256_store_si256((__m256i*)&out[j*PARAMS_N + q], acc);")
e(M, '''    memcpy((unsigned char*)out, (unsigned char*)e, 2*PARAMS_N*PARAMS_NBAR);

''', '')
e(M, '''    ALIGN_HEADER(32) uint16_t A[PARAMS_N*8] ALIGN_FOOTER(32) = {0};
''', '''    ALIGN_HEADER(32) uint16_t A[PARAMS_N*8] ALIGN_FOOTER(32) = {0};

    memcpy(out, e, 2*PARAMS_N*PARAMS_NBAR);
''')
e(M, '''            for (j = 0; j < PARAMS_N; j++) {                    // Matrix-vector multiplication            
                uint16_t sp = s[k*PARAMS_N + j];
                sum[0] += a_row[0*PARAMS_N + j] * sp;           // Go through four lines with same s
                sum[1] += a_row[1*PARAMS_N + j] * sp;
                sum[2] += a_row[2*PARAMS_N + j] * sp;
                sum[3] += a_row[3*PARAMS_N + j] * sp;
            }
''', '''            const uint16_t *col = s + k*PARAMS_N;
            for (j = 0; j < PARAMS_N; j += 2) {
                for (int r = 0; r < 4; r++) {
                    sum[r] += (uint16_t)a_row[r*PARAMS_N + j] * (uint32_t)col[j] + (uint16_t)a_row[r*PARAMS_N + j + 1] * (uint32_t)col[j + 1];
                }
            }
''')
for f in (M, "src/frodo_macrify_reference.c"):
    e(f, ("void frodo_mul_add_sb_plus_e(", "void frodo_add("), '''void frodo_mul_add_sb_plus_e(uint16_t *out, const uint16_t *b, const uint16_t *s, const uint16_t *e) 
{ // Multiply by s on the left
  // Inputs: b (N x N_BAR), s (N_BAR x N), e (N_BAR x N_BAR)
  // Output: out = s*b + e (N_BAR x N_BAR)
    int i, j, k;

    memcpy(out, e, PARAMS_NBAR*PARAMS_NBAR*sizeof(uint16_t));
    for (j = 0; j < PARAMS_N; j++) {
        for (k = 0; k < PARAMS_NBAR; k++) {
            const uint32_t skj = s[k*PARAMS_N + j];
            for (i = 0; i < PARAMS_NBAR; i++) {
                out[k*PARAMS_NBAR + i] = (uint16_t)(out[k*PARAMS_NBAR + i] + skj * b[j*PARAMS_NBAR + i]);
            }
        }
    }
    for (i = 0; i < PARAMS_NBAR*PARAMS_NBAR; i++) out[i] %= PARAMS_Q;
}


''')
    e(f, '''        out[i] = (a[i] + b[i]) & ((1<<PARAMS_LOGQ)-1);
''', '''        uint32_t t = (uint32_t)a[i] + b[i];
        out[i] = (uint16_t)(t - ((t >> PARAMS_LOGQ) << PARAMS_LOGQ));
''')
    e(f, "templong |= ((uint64_t)(temp & maskex)) << (PARAMS_EXTRACTED_BITS * j);", "templong += ((uint64_t)(temp & maskex)) << (PARAMS_EXTRACTED_BITS * j);")
    e(f, ("void frodo_key_encode(", "void frodo_key_decode("), '''void frodo_key_encode(uint16_t *out, const uint16_t *in) 
{ // Encoding
    const uint8_t *m = (const uint8_t*)in;
    uint32_t acc = 0;
    unsigned int have = 0;

    for (int i = 0; i < PARAMS_NBAR*PARAMS_NBAR; i++) {
        if (have < PARAMS_EXTRACTED_BITS) {
            acc |= (uint32_t)*m++ << have;
            have += 8;
        }
        *out++ = (uint16_t)((acc % (1u << PARAMS_EXTRACTED_BITS)) * (PARAMS_Q >> PARAMS_EXTRACTED_BITS));
        acc >>= PARAMS_EXTRACTED_BITS;
        have -= PARAMS_EXTRACTED_BITS;
    }
}


''')
R = "src/frodo_macrify_reference.c"
e(R, '''            for (j = 0; j < PARAMS_N; j++) {                                
                sum += A[j*PARAMS_N + i] * s[k*PARAMS_N + j];  
            }
''', '''            for (j = PARAMS_N - 1; j >= 0; --j) {
                const int a = A[j*PARAMS_N + i], b = (int16_t)s[k*PARAMS_N + j];
                sum = (uint16_t)(sum + a * b);
            }
''')
# --- random.c
e("src/random/random.c", '''int randombytes(unsigned char* random_array''', '''#if defined(NIX)
static int device(void)
{
    while (lock == -1) {
        lock = open("/dev/urandom", O_RDONLY);
        if (lock != -1)
            break;
        delay(0xFFFFF);
    }
    return lock;
}


static ssize_t fill(unsigned char *dst, size_t len)
{ // at least one byte unless the device is at its end
    for (;;) {
        ssize_t got = read(device(), dst, len);
        if (got != -1)
            return got;
        delay(0xFFFF);
    }
}
#endif


int randombytes(unsigned char* random_array''')
e("src/random/random.c", ('''    int r, n;
    
    if (lock == -1) {''', "#endif"), '''    for (ssize_t got; nbytes > 0; random_array += got, nbytes -= got) {
        got = fill(random_array, nbytes > MAX_CHUNK ? MAX_CHUNK : nbytes);
    }
''')
