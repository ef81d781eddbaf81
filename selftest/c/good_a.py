# behaviour-preserving edits, set A: (file, old text, new text); old text None = append
E = []
def e(f, old, new, cnt=1): E.append((f, old, new, cnt))

# --- kem.c: helpers extracted, statements reordered
e("src/kem.c", "int crypto_kem_keypair(unsigned char* pk", '''static void expand_noise_seed(uint16_t *dst, const size_t nelem, const uint8_t domain, const uint8_t *seed)
{ // dst <- SHAKE(domain || seed), as host-order 16-bit words
    uint8_t xof_in[1 + CRYPTO_BYTES];

    xof_in[0] = domain;
    for (size_t i = 0; i < CRYPTO_BYTES; i++) {
        xof_in[i + 1] = seed[i];
    }
    shake((uint8_t*)dst, nelem*sizeof(uint16_t), xof_in, sizeof(xof_in));
    for (uint16_t *p = dst; p != dst + nelem; p++) {
        *p = LE_TO_UINT16(*p);
    }
    clear_bytes(xof_in, sizeof(xof_in));
}


static void final_hash(unsigned char *ss, const unsigned char *ct, const uint8_t *k)
{ // ss <- F(ct || k)
    uint8_t Fin[CRYPTO_CIPHERTEXTBYTES + CRYPTO_BYTES];

    memcpy(Fin, ct, CRYPTO_CIPHERTEXTBYTES);
    memcpy(Fin + CRYPTO_CIPHERTEXTBYTES, k, CRYPTO_BYTES);
    shake(ss, CRYPTO_BYTES, Fin, sizeof(Fin));
    clear_bytes(Fin, sizeof(Fin));
}


int crypto_kem_keypair(unsigned char* pk''')
e("src/kem.c", '''    shake_input_seedSE[0] = 0x5F;
    memcpy(&shake_input_seedSE[1], randomness_seedSE, CRYPTO_BYTES);
    shake((uint8_t*)S, 2*PARAMS_N*PARAMS_NBAR*sizeof(uint16_t), shake_input_seedSE, 1 + CRYPTO_BYTES);
    for (size_t i = 0; i < 2 * PARAMS_N * PARAMS_NBAR; i++) {
        S[i] = LE_TO_UINT16(S[i]);
    }
    frodo_sample_n(S, PARAMS_N*PARAMS_NBAR);
    frodo_sample_n(E, PARAMS_N*PARAMS_NBAR);
''', '''    expand_noise_seed(S, 2*PARAMS_N*PARAMS_NBAR, 0x5F, randomness_seedSE);
    frodo_sample_n(S, 2*PARAMS_N*PARAMS_NBAR);
''')
e("src/kem.c", '''    uint8_t shake_input_seedSE[1 + CRYPTO_BYTES];           // contains secret data
''', "")
e("src/kem.c", '''    clear_bytes(randomness, 2*CRYPTO_BYTES);
    clear_bytes(shake_input_seedSE, 1 + CRYPTO_BYTES);
''', '''    clear_bytes(randomness, sizeof(randomness));
''')
e("src/kem.c", '''    for (size_t i = 0; i < PARAMS_N * PARAMS_NBAR; i++) {
        S[i] = UINT16_TO_LE(S[i]);
    }
    memcpy(sk_S, S, 2*PARAMS_N*PARAMS_NBAR);
''', '''    for (size_t i = 0; i < PARAMS_N * PARAMS_NBAR; i++) {
        sk_S[2*i] = (uint8_t)S[i];
        sk_S[2*i + 1] = (uint8_t)(S[i] >> 8);
    }
''')
e("src/kem.c", '''    uint8_t shake_input_seedSE[1 + CRYPTO_BYTES];             // contains secret data

    // pkh <- G_1(pk), generate random mu, compute (seedSE || k) = G_2(pkh || mu)
    shake(pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);
    if (randombytes(mu, BYTES_MU) != 0)
        return 1;
''', '''
    // pkh <- G_1(pk), generate random mu, compute (seedSE || k) = G_2(pkh || mu)
    if (randombytes(mu, BYTES_MU))
        return 1;
    shake(pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);
''')
e("src/kem.c", '''    shake_input_seedSE[0] = 0x96;
    memcpy(&shake_input_seedSE[1], seedSE, CRYPTO_BYTES);
    shake((uint8_t*)Sp, (2*PARAMS_N+PARAMS_NBAR)*PARAMS_NBAR*sizeof(uint16_t), shake_input_seedSE, 1 + CRYPTO_BYTES);
    for (size_t i = 0; i < (2 * PARAMS_N + PARAMS_NBAR) * PARAMS_NBAR; i++) {
        Sp[i] = LE_TO_UINT16(Sp[i]);
    }
    frodo_sample_n(Sp, PARAMS_N*PARAMS_NBAR);
    frodo_sample_n(Ep, PARAMS_N*PARAMS_NBAR);
''', '''    expand_noise_seed(Sp, (2*PARAMS_N+PARAMS_NBAR)*PARAMS_NBAR, 0x96, seedSE);
    frodo_sample_n(Sp, (2*PARAMS_N+PARAMS_NBAR)*PARAMS_NBAR);
''')
e("src/kem.c", '''    // Generate Epp, and compute V = Sp*B + Epp
    frodo_sample_n(Epp, PARAMS_NBAR*PARAMS_NBAR);
''', "")
e("src/kem.c", '''    uint8_t Fin[CRYPTO_CIPHERTEXTBYTES + CRYPTO_BYTES];       // contains secret data via Fin_k
    uint8_t *Fin_ct = &Fin[0];
    uint8_t *Fin_k = &Fin[CRYPTO_CIPHERTEXTBYTES];            // contains secret data
''', "")
e("src/kem.c", '''    memcpy(Fin_ct, ct, CRYPTO_CIPHERTEXTBYTES);
    memcpy(Fin_k, k, CRYPTO_BYTES);
    shake(ss, CRYPTO_BYTES, Fin, CRYPTO_CIPHERTEXTBYTES + CRYPTO_BYTES);

''', '''    final_hash(ss, ct, k);

''')
e("src/kem.c", '''    clear_bytes((uint8_t *)Epp, PARAMS_NBAR*PARAMS_NBAR*sizeof(uint16_t));
    clear_bytes(mu, BYTES_MU);
    clear_bytes(G2out, 2*CRYPTO_BYTES);
    clear_bytes(Fin_k, CRYPTO_BYTES);
    clear_bytes(shake_input_seedSE, 1 + CRYPTO_BYTES);
''', '''    clear_bytes((uint8_t *)Epp, PARAMS_NBAR*PARAMS_NBAR*sizeof(uint16_t));
    clear_bytes(G2in, sizeof(G2in));
    clear_bytes(G2out, sizeof(G2out));
''')
# dec: compare packed strings, one clear of the whole Sp
e("src/kem.c", '''    shake_input_seedSEprime[0] = 0x96;
    memcpy(&shake_input_seedSEprime[1], seedSEprime, CRYPTO_BYTES);
    shake((uint8_t*)Sp, (2*PARAMS_N+PARAMS_NBAR)*PARAMS_NBAR*sizeof(uint16_t), shake_input_seedSEprime, 1 + CRYPTO_BYTES);
    for (size_t i = 0; i < (2*PARAMS_N+PARAMS_NBAR)*PARAMS_NBAR; i++) {
        Sp[i] = LE_TO_UINT16(Sp[i]);
    }
''', '''    expand_noise_seed(Sp, (2*PARAMS_N+PARAMS_NBAR)*PARAMS_NBAR, 0x96, seedSEprime);
''')
e("src/kem.c", '''    uint8_t shake_input_seedSEprime[1 + CRYPTO_BYTES];       // contains secret data
''', "")
e("src/kem.c", '''    clear_bytes(shake_input_seedSEprime, 1 + CRYPTO_BYTES);
''', "")
e("src/kem.c", '''    clear_bytes((uint8_t *)Sp, PARAMS_N*PARAMS_NBAR*sizeof(uint16_t));
    clear_bytes((uint8_t *)S, PARAMS_N*PARAMS_NBAR*sizeof(uint16_t));
    clear_bytes((uint8_t *)Ep, PARAMS_N*PARAMS_NBAR*sizeof(uint16_t));
    clear_bytes((uint8_t *)Epp, PARAMS_NBAR*PARAMS_NBAR*sizeof(uint16_t));
''', '''    clear_bytes((uint8_t *)Sp, sizeof(Sp));
    clear_bytes((uint8_t *)S, sizeof(S));
''')
e("src/kem.c", '''    for (int i = 0; i < PARAMS_N*PARAMS_NBAR; i++) BBp[i] = BBp[i] & ((1 << PARAMS_LOGQ)-1);
''', '''    {
        uint16_t *p = BBp;
        int left = PARAMS_N*PARAMS_NBAR;
        while (left-- > 0) *p++ %= PARAMS_Q;
    }
''')
e("src/kem.c", '''    int8_t selector = ct_verify(Bp, BBp, PARAMS_N*PARAMS_NBAR) | ct_verify(C, CC, PARAMS_NBAR*PARAMS_NBAR);
''', '''    int8_t selector = ct_verify(C, CC, PARAMS_NBAR*PARAMS_NBAR);
    selector |= ct_verify(BBp, Bp, PARAMS_N*PARAMS_NBAR);
''')
# --- noise.c
e("src/noise.c", '''void frodo_sample_n(uint16_t *s, const size_t n) 
''', '''static uint16_t sample_one(const uint16_t word)
{
    const uint32_t t = word / 2;
    uint32_t mag = 0;

    for (int k = (int)CDF_TABLE_LEN - 2; k >= 0; k--) {
        mag += (CDF_TABLE[k] - t) >> 31;
    }
    return (uint16_t)(mag - 2 * mag * (word & 1));
}


void frodo_sample_n(uint16_t *s, const size_t n) 
''')
e("src/noise.c", '''    unsigned int i, j;

    for (i = 0; i < n; ++i) {
        uint16_t sample = 0;
        uint16_t prnd = s[i] >> 1;    // Drop the least significant bit
        uint16_t sign = s[i] & 0x1;    // Pick the least significant bit

        // No need to compare with the last value.
        for (j = 0; j < (unsigned int)(CDF_TABLE_LEN - 1); j++) {
            // Constant time comparison: 1 if CDF_TABLE[j] < s, 0 otherwise. Uses the fact that CDF_TABLE[j] and s fit in 15 bits.
            sample += (uint16_t)(CDF_TABLE[j] - prnd) >> 15;
        }
        // Assuming that sign is either 0 or 1, flips sample iff sign = 1
        s[i] = ((-sign) ^ sample) + sign;
    }
''', '''    for (const uint16_t *end = s + n; s < end; s++) {
        *s = sample_one(*s);
    }
''')
# --- util.c
def between(src, a, b):
    i = src.index(a); j = src.index(b, i)
    return src[i:j]
BODY_PACK = ("void frodo_pack(", "void frodo_unpack(")
e("src/util.c", BODY_PACK, '''void frodo_pack(unsigned char *out, const size_t outlen, const uint16_t *in, const size_t inlen, const unsigned char lsb) 
{ // Pack the input uint16 vector into a char output vector, copying lsb bits from each input element. 
  // If inlen * lsb / 8 > outlen, only outlen * 8 bits are copied.
    uint32_t acc = 0;        // bits waiting to be written, right aligned
    unsigned int have = 0;   // how many
    size_t i = 0;

    for (size_t j = 0; j < inlen && i < outlen; j++) {
        acc = (acc << lsb) | (in[j] & ((1u << lsb) - 1));
        have += lsb;
        while (have >= 8 && i < outlen) {
            have -= 8;
            out[i++] = (unsigned char)(acc >> have);
        }
        acc &= (1u << have) - 1;
    }
    if (have > 0 && i < outlen) {
        out[i++] = (unsigned char)(acc << (8 - have));
    }
    while (i < outlen) {
        out[i++] = 0;
    }
}


''')
e("src/util.c", ("void frodo_unpack(", "int8_t ct_verify("), '''void frodo_unpack(uint16_t *out, const size_t outlen, const unsigned char *in, const size_t inlen, const unsigned char lsb) 
{ // Unpack the input char vector into a uint16_t output vector, copying lsb bits
  // for each output element from input. outlen must be at least ceil(inlen * 8 / lsb).
    uint32_t acc = 0;
    unsigned int have = 0;
    size_t j = 0;

    for (size_t i = 0; i < outlen; i++) {
        while (have < lsb && j < inlen) {
            acc = (acc << 8) | in[j++];
            have += 8;
        }
        if (have >= lsb) {
            have -= lsb;
            out[i] = (uint16_t)((acc >> have) & ((1u << lsb) - 1));
        } else {
            out[i] = (uint16_t)((acc & ((1u << have) - 1)) << (lsb - have));
            have = 0;
        }
        acc &= (1u << have) - 1;
    }
}


''')
e("src/util.c", '''    uint16_t r = 0;

    for (size_t i = 0; i < len; i++) {
        r |= a[i] ^ b[i];
    }

    r = (-(int16_t)(r >> 1) | -(int16_t)(r & 1)) >> (8*sizeof(uint16_t)-1);
    return (int8_t)r;
''', '''    uint32_t diff = 0;

    while (len > 0) {
        len--;
        diff |= (uint32_t)(a[len] ^ b[len]);
    }
    return (int8_t)(0 - ((diff | (0u - diff)) >> 31));
''')
e("src/util.c", '''        r[i] = (~selector & a[i]) | (selector & b[i]);
''', '''        r[i] = a[i] ^ ((uint8_t)selector & (a[i] ^ b[i]));
''')
e("src/util.c", '''    volatile uint8_t *v = mem; 

    for (size_t i = 0; i < n; i++) {
        v[i] = 0;
    }
''', '''    volatile uint8_t *v = mem; 

    while (n--) *v++ = 0;
''')
# --- fips202.c
e("src/sha3/fips202.c", '''  unsigned long long r = 0, i;

  for (i = 0; i < 8; ++i) {
    r |= (unsigned long long)x[i] << 8 * i;
  }
  return r;
''', '''  uint64_t r = 0;

  for (int i = 7; i >= 0; i--) {
    r = (r << 8) + x[i];
  }
  return r;
''')
e("src/sha3/fips202.c", '''  for (i = 0; i < 8; ++i) {
    x[i] = (uint8_t)u;
    u >>= 8;
  }
''', '''  for (i = 0; i < 8; ++i)
    x[i] = (uint8_t)(u >> 8 * i);
''')
e("src/sha3/fips202.c", '''  unsigned long long i;
  unsigned char t[200];
 
  while (mlen >= r) 
  {
    for (i = 0; i < r / 8; ++i)
      s[i] ^= load64(m + 8 * i);
    
    KeccakF1600_StatePermute(s);
    mlen -= r;
    m += r;
  }

  for (i = 0; i < r; ++i)
    t[i] = 0;
  for (i = 0; i < mlen; ++i)
    t[i] = m[i];
  t[i] = p;
  t[r - 1] |= 128;
  for (i = 0; i < r / 8; ++i)
    s[i] ^= load64(t + 8 * i);
''', '''  unsigned char t[200] = {0};
 
  for (; mlen >= r; mlen -= r, m += r) {
    keccak_xor_block(s, m, r / 8);
    KeccakF1600_StatePermute(s);
  }

  if (mlen)
    memcpy(t, m, (size_t)mlen);
  t[mlen] = p;
  t[r - 1] ^= 128;
  keccak_xor_block(s, t, r / 8);
''')
e("src/sha3/fips202.c", '''static void keccak_absorb(''', '''static void keccak_xor_block(uint64_t *s, const unsigned char *block, unsigned int lanes)
{
  while (lanes--)
    s[lanes] ^= load64(block + 8 * lanes);
}


static void keccak_absorb(''')
e("src/sha3/fips202.c", ("void shake128(unsigned char *output", "/********** SHAKE256"), '''static void shake_oneshot(unsigned char *output, unsigned long long outlen, const unsigned char *input, unsigned long long inlen, unsigned int rate)
{
  uint64_t s[25];
  unsigned char t[200];

  memset(s, 0, sizeof(s));
  keccak_absorb(s, rate, input, inlen, 0x1F);
  while (outlen >= rate) {
    keccak_squeezeblocks(output, 1, s, rate);
    output += rate;
    outlen -= rate;
  }
  if (outlen > 0) {
    keccak_squeezeblocks(t, 1, s, rate);
    memcpy(output, t, (size_t)outlen);
  }
}


void shake128(unsigned char *output, unsigned long long outlen, const unsigned char *input,  unsigned long long inlen)
{
  shake_oneshot(output, outlen, input, inlen, SHAKE128_RATE);
}


''')
e("src/sha3/fips202.c", ("void shake256(unsigned char *output", None), '''void shake256(unsigned char *output, unsigned long long outlen, const unsigned char *input,  unsigned long long inlen)
{
  shake_oneshot(output, outlen, input, inlen, SHAKE256_RATE);
}
''')
# --- fips202x4.c
e("src/sha3/fips202x4.c", '''  while (nblocks > 0) 
  {
    KeccakF1600_StatePermute4x(s);
    for (i = 0; i < (r>>3); i++)
    {
      store64(h0+8*i, ss[4*i+0]);
      store64(h1+8*i, ss[4*i+1]);
      store64(h2+8*i, ss[4*i+2]);
      store64(h3+8*i, ss[4*i+3]);
    }
    h0 += r;
    h1 += r;
    h2 += r;
    h3 += r;
    nblocks--;
  }
''', '''  unsigned char *const h[4] = {h0, h1, h2, h3};
  unsigned long long b, lane;

  for (b = 0; b < nblocks; b++)
  {
    KeccakF1600_StatePermute4x(s);
    for (lane = 0; lane < 4; lane++)
      for (i = 0; i < r / 8; i++)
        store64(h[lane] + b * r + 8 * i, ss[4 * i + lane]);
  }
''')
e("src/sha3/fips202x4.c", "    s[i] = _mm256_xor_si256(s[i], s[i]); // zero state\n", "    s[i] = _mm256_setzero_si256();\n", 0)
# --- aes_c.c
e("src/aes/aes_c.c", '''  return ((x<<1) ^ (((x>>7) & 1) * 0x1b));
''', '''  const uint8_t carry = (uint8_t)(0 - (x >> 7));
  return (uint8_t)((uint8_t)(x + x) ^ (carry & 0x1b));
''')
e("src/aes/aes_c.c", ("static void ShiftRows(", "static uint8_t xtime("), '''static void ShiftRows(state_t* state)
{
  uint8_t old[4];
  int r, c;

  for (r = 1; r < 4; r++)
  {
    for (c = 0; c < 4; c++)
      old[c] = (*state)[c][r];
    for (c = 0; c < 4; c++)
      (*state)[c][r] = old[(c + r) & 3];
  }
}


''')
e("src/aes/aes_c.c", ("static void MixColumns(", "// Cipher is the main"), '''static void MixColumns(state_t* state)
{
  int i;
  for (i = 0; i < 4; ++i)
  {
    uint8_t *c = (*state)[i];
    const uint8_t a0 = c[0], a1 = c[1], a2 = c[2], a3 = c[3];
    c[0] = xtime(a0) ^ xtime(a1) ^ a1 ^ a2 ^ a3;
    c[1] = a0 ^ xtime(a1) ^ xtime(a2) ^ a2 ^ a3;
    c[2] = a0 ^ a1 ^ xtime(a2) ^ xtime(a3) ^ a3;
    c[3] = xtime(a0) ^ a0 ^ a1 ^ a2 ^ xtime(a3);
  }
}


''')
e("src/aes/aes_c.c", '''  for (i=0;i<4;++i)
  {
    for (j = 0; j < 4; ++j)
    {
      (*state)[i][j] ^= RoundKey[round * Nb * 4 + i * Nb + j];
    }
  }
''', '''  const uint8_t *rk = RoundKey + 16 * round;
  for (i=0;i<4;++i)
    for (j = 0; j < 4; ++j)
      (*state)[i][j] ^= *rk++;
''')
e("src/aes/aes.c", '''    for (size_t block = 0; block < plaintext_len / 16; block++) {
        aes128_enc(plaintext + (16 * block), schedule, ciphertext + (16 * block));
    }
''', '''    size_t left = plaintext_len;
    while (left >= 16) {
        aes128_enc(plaintext, schedule, ciphertext);
        plaintext += 16;
        ciphertext += 16;
        left -= 16;
    }
''')
e("src/aes/aes_ni.c", '''	for (size_t i = 1; i < 10; i++) {
		m = _mm_aesenc_si128(m, schedule[i]);
	}
''', '''	m = _mm_aesenc_si128(m, schedule[1]);
	m = _mm_aesenc_si128(m, schedule[2]);
	m = _mm_aesenc_si128(m, schedule[3]);
	for (const __m128i *k = schedule + 4; k < schedule + 10; k++) {
		m = _mm_aesenc_si128(m, *k);
	}
''')
# --- macrify
M = "src/frodo_macrify.c"
e(M, '''    for (i = 0; i < (PARAMS_N*PARAMS_NBAR); i += 2) {    
        *((uint32_t*)&out[i]) = *((uint32_t*)&e[i]);
    }    
''', '''    memcpy(out, e, PARAMS_N*PARAMS_NBAR*sizeof(uint16_t));
''')
e(M, '''            uint16_t sum[4] = {0};
            for (j = 0; j < PARAMS_N; j++) {                    // Matrix-vector multiplication            
                uint16_t sp = s[k*PARAMS_N + j];
                sum[0] += a_row[0*PARAMS_N + j] * sp;           // Go through four lines with same s
                sum[1] += a_row[1*PARAMS_N + j] * sp;
                sum[2] += a_row[2*PARAMS_N + j] * sp;
                sum[3] += a_row[3*PARAMS_N + j] * sp;
            }
            out[(i+0)*PARAMS_NBAR + k] += sum[0];
            out[(i+2)*PARAMS_NBAR + k] += sum[2];
            out[(i+1)*PARAMS_NBAR + k] += sum[1];
            out[(i+3)*PARAMS_NBAR + k] += sum[3];
''', '''            for (int row = 0; row < 4; row++) {
                uint32_t dot = out[(i+row)*PARAMS_NBAR + k];
                for (j = 0; j < PARAMS_N; j++) {
                    dot += (uint32_t)(uint16_t)a_row[row*PARAMS_N + j] * s[k*PARAMS_N + j];
                }
                out[(i+row)*PARAMS_NBAR + k] = (uint16_t)dot;
            }
''')
e(M, '''            uint16_t sum = 0;
            int16_t sp[8];
            for (p = 0; p < 8; p++) {
                sp[p] = s[j*PARAMS_N + i + p];
            }
            for (q = 0; q < PARAMS_N; q++) {
                sum = e[j*PARAMS_N + q];
                for (p = 0; p < 8; p++) {
                    sum += sp[p] * A[p*PARAMS_N + q];
                }
                e[j*PARAMS_N + q] = sum;
            }
''', '''            for (p = 0; p < 8; p++) {
                const uint32_t sjp = s[j*PARAMS_N + i + p];
                for (q = 0; q < PARAMS_N; q++) {
                    e[j*PARAMS_N + q] += (uint16_t)(sjp * A[p*PARAMS_N + q]);
                }
            }
''')
e(M, '''            __m256i b, sp[8], acc;
            for (p = 0; p < 8; p++) {
                sp[p] = _mm256_set1_epi16(s[j*PARAMS_N + i + p]);
            }
            for (q = 0; q < PARAMS_N; q+=16) {
                acc = _mm256_load_si256((__m256i*)&e[j*PARAMS_N + q]);
                for (p = 0; p < 8; p++) {
                    b = _mm256_load_si256((__m256i*)&A[p*PARAMS_N + q]);
                    b = _mm256_mullo_epi16(b, sp[p]);
                    acc = _mm256_add_epi16(b, acc);
                }
                _mm256_store_si256((__m256i*)&e[j*PARAMS_N + q], acc);
            }
''', '''            for (p = 0; p < 8; p++) {
                const __m256i sp = _mm256_set1_epi16(s[j*PARAMS_N + i + p]);
                __m256i *row = (__m256i*)&e[j*PARAMS_N];
                const __m256i *arow = (const __m256i*)&A[p*PARAMS_N];
                for (q = 0; q < PARAMS_N/16; q++) {
                    __m256i prod = _mm256_mullo_epi16(sp, _mm256_loadu_si256(arow + q));
                    _mm256_storeu_si256(row + q, _mm256_add_epi16(_mm256_loadu_si256(row + q), prod));
                }
            }
''')
for f in (M, "src/frodo_macrify_reference.c"):
    e(f, '''            out[i*PARAMS_NBAR + j] = 0;
            for (k = 0; k < PARAMS_N; k++) {
                out[i*PARAMS_NBAR + j] += b[i*PARAMS_N + k] * (int16_t)s[j*PARAMS_N + k];
            }
            out[i*PARAMS_NBAR + j] = (uint32_t)(out[i*PARAMS_NBAR + j]) & ((1<<PARAMS_LOGQ)-1);
''', '''            uint32_t acc = 0;
            const uint16_t *bp = b + i*PARAMS_N, *sp = s + j*PARAMS_N;
            for (k = PARAMS_N; k > 0; k--) {
                acc += (uint32_t)*bp++ * *sp++;
            }
            out[i*PARAMS_NBAR + j] = (uint16_t)(acc % PARAMS_Q);
''')
    e(f, '''        out[i] = (a[i] - b[i]) & ((1<<PARAMS_LOGQ)-1);
''', '''        out[i] = (uint16_t)((a[i] + PARAMS_Q - (b[i] & (PARAMS_Q - 1))) & (PARAMS_Q - 1));
''')
    e(f, ("void frodo_key_encode(", "void frodo_key_decode("), '''void frodo_key_encode(uint16_t *out, const uint16_t *in) 
{ // Encoding
    const uint8_t *msg = (const uint8_t*)in;
    unsigned int bit = 0;

    for (unsigned int i = 0; i < PARAMS_NBAR*PARAMS_NBAR; i++) {
        uint16_t v = 0;
        for (unsigned int j = 0; j < PARAMS_EXTRACTED_BITS; j++, bit++) {
            v |= (uint16_t)((msg[bit >> 3] >> (bit & 7)) & 1) << j;
        }
        out[i] = v << (PARAMS_LOGQ - PARAMS_EXTRACTED_BITS);
    }
}


''')
    e(f, ("void frodo_key_decode(", None), '''void frodo_key_decode(uint16_t *out, const uint16_t *in)
{ // Decoding
    uint8_t *msg = (uint8_t*)out;
    unsigned int i, j, bit = 0;

    for (i = 0; i < PARAMS_NBAR*PARAMS_NBAR*PARAMS_EXTRACTED_BITS/8; i++)
        msg[i] = 0;
    for (i = 0; i < PARAMS_NBAR*PARAMS_NBAR; i++) {
        const uint32_t half = 1u << (PARAMS_LOGQ - PARAMS_EXTRACTED_BITS - 1);
        const uint32_t v = (in[i] + half) >> (PARAMS_LOGQ - PARAMS_EXTRACTED_BITS);
        for (j = 0; j < PARAMS_EXTRACTED_BITS; j++, bit++) {
            msg[bit / 8] |= (uint8_t)(((v >> j) & 1) << (bit % 8));
        }
    }
}
''')
# OpenSSL helper
e(M, '''int frodo_mul_add_as_plus_e(''', '''#if defined(USE_AES128_FOR_A) && defined(USE_OPENSSL)
static EVP_CIPHER_CTX *start_cipher(const uint8_t *seed_A)
{
    EVP_CIPHER_CTX *ctx = EVP_CIPHER_CTX_new();

    if (ctx == NULL) {
        handleErrors();
    }
    if (EVP_EncryptInit_ex(ctx, EVP_aes_128_ecb(), NULL, seed_A, NULL) != 1) {
        handleErrors();
    }
    return ctx;
}
#endif


int frodo_mul_add_as_plus_e(''')
e(M, '''    EVP_CIPHER_CTX *aes_key_schedule;    
    int len;
    if (!(aes_key_schedule = EVP_CIPHER_CTX_new())) handleErrors();    
    if (1 != EVP_EncryptInit_ex(aes_key_schedule, EVP_aes_128_ecb(), NULL, seed_A, NULL)) handleErrors();    
''', '''    int len;
    EVP_CIPHER_CTX *aes_key_schedule = start_cipher(seed_A);
''')
e(M, '''    EVP_CIPHER_CTX *aes_key_schedule;
    int len;
    if (!(aes_key_schedule = EVP_CIPHER_CTX_new())) handleErrors();
    if (1 != EVP_EncryptInit_ex(aes_key_schedule, EVP_aes_128_ecb(), NULL, seed_A, NULL)) handleErrors();
''', '''    EVP_CIPHER_CTX *aes_key_schedule = start_cipher(seed_A);
    int len;
''')
R = "src/frodo_macrify_reference.c"
e(R, '''                sum += A[i*PARAMS_N + j] * s[k*PARAMS_N + j];  
''', '''                sum = (uint16_t)(sum + (uint32_t)s[k*PARAMS_N + j] * (uint16_t)A[i*PARAMS_N + j]);
''')
e(R, '''                sum += A[j*PARAMS_N + i] * s[k*PARAMS_N + j];  
            }
            out[k*PARAMS_N + i] += sum;                         // Adding e. No need to reduce modulo 2^15, extra bits are taken care of during packing later on.
''', '''                sum += A[j*PARAMS_N + i] * s[k*PARAMS_N + j];  
            }
            out[k*PARAMS_N + i] = e[k*PARAMS_N + i] + sum;
''')
# --- random.c
e("src/random/random.c", '''    if (lock == -1) {
        do {
            lock = open("/dev/urandom", O_RDONLY);
            if (lock == -1) {
                delay(0xFFFFF);
            }
        } while (lock == -1);
    }

    while (nbytes > 0) {
        n = (nbytes > MAX_CHUNK) ? MAX_CHUNK : (int)nbytes;
        do {
            r = read(lock, random_array, n);
            if (r == -1) {
                delay(0xFFFF);
            }
        } while (r == -1);
        random_array += r;
        nbytes -= r;
    }
''', '''    while (lock == -1) {
        lock = open("/dev/urandom", O_RDONLY);
        if (lock == -1)
            delay(0xFFFFF);
    }

    while (nbytes != 0) {
        n = MAX_CHUNK;
        if (nbytes < MAX_CHUNK)
            n = (int)nbytes;
        r = read(lock, random_array, n);
        if (r == -1) {
            delay(0xFFFF);
            continue;
        }
        random_array += r;
        nbytes -= r;
    }
''')
