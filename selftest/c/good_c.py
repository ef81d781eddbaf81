# behaviour-preserving edits, set C: shared helpers between operations, tables of pointers, generic strided products, streaming hash
E = []
def e(f, old, new, cnt=1): E.append((f, old, new, cnt))
K, M, R = "src/kem.c", "src/frodo_macrify.c", "src/frodo_macrify_reference.c"

# --- kem.c: enc and dec share one encryption routine; cleanup driven by a table
e(K, "int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk)\n", '''typedef struct { void *where; size_t size; } secret_area_t;

static void wipe_areas(const secret_area_t *a, size_t count)
{
    while (count-- > 0)
        clear_bytes((uint8_t *)a[count].where, a[count].size);
}

static void u16_from_le(uint16_t *v, size_t count)
{
    uint16_t *end = v + count;
    for (; v != end; v++)
        *v = LE_TO_UINT16(*v);
}

// (Bp, C) = Enc(pk, mu; seedSE)
static void pke_encrypt(uint16_t *Bp, uint16_t *C, const uint8_t *pk, const uint8_t *mu, const uint8_t *seedSE)
{
    ALIGN_HEADER(32) uint16_t N[(2*PARAMS_N+PARAMS_NBAR)*PARAMS_NBAR] ALIGN_FOOTER(32) = {0};
    uint16_t B[PARAMS_N*PARAMS_NBAR];
    uint16_t V[PARAMS_NBAR*PARAMS_NBAR];
    uint8_t in[1 + CRYPTO_BYTES];
    enum { LEN = PARAMS_N*PARAMS_NBAR };
    const secret_area_t areas[] = { { N, sizeof(N) }, { V, sizeof(V) }, { in, sizeof(in) } };

    in[0] = 0x96;
    memmove(in + 1, seedSE, CRYPTO_BYTES);
    shake((uint8_t*)N, sizeof(N), in, sizeof(in));
    u16_from_le(N, sizeof(N)/sizeof(N[0]));
    frodo_sample_n(N, 2*LEN + PARAMS_NBAR*PARAMS_NBAR);
    frodo_unpack(B, LEN, pk + BYTES_SEED_A, CRYPTO_PUBLICKEYBYTES - BYTES_SEED_A, PARAMS_LOGQ);
    frodo_mul_add_sb_plus_e(V, B, N, N + 2*LEN);
    frodo_mul_add_sa_plus_e(Bp, N, N + LEN, pk);
    frodo_key_encode(C, (const uint16_t*)mu);
    frodo_add(C, C, V);
    wipe_areas(areas, sizeof(areas)/sizeof(areas[0]));
}


int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk)
''')
e(K, ("{ // FrodoKEM's key encapsulation", "int crypto_kem_dec("), '''{ // FrodoKEM's key encapsulation
    ALIGN_HEADER(32) uint16_t Bp[PARAMS_N*PARAMS_NBAR] ALIGN_FOOTER(32);
    uint16_t C[PARAMS_NBAR*PARAMS_NBAR];
    uint8_t G2in[BYTES_PKHASH + BYTES_MU];
    uint8_t G2out[2*CRYPTO_BYTES];
    uint8_t Fin[CRYPTO_CIPHERTEXTBYTES + CRYPTO_BYTES];
    const size_t c1len = (PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8;
    const size_t c2len = (PARAMS_LOGQ*PARAMS_NBAR*PARAMS_NBAR)/8;
    const secret_area_t areas[] = { { G2in, sizeof(G2in) }, { G2out, sizeof(G2out) }, { Fin, sizeof(Fin) } };

    if (randombytes(G2in + BYTES_PKHASH, BYTES_MU)) {
        wipe_areas(areas, 1);
        return 1;
    }
    shake(G2in, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);
    shake(G2out, sizeof(G2out), G2in, sizeof(G2in));
    pke_encrypt(Bp, C, pk, G2in + BYTES_PKHASH, G2out);

    frodo_pack(Fin, c1len, Bp, PARAMS_N*PARAMS_NBAR, PARAMS_LOGQ);
    frodo_pack(Fin + c1len, c2len, C, PARAMS_NBAR*PARAMS_NBAR, PARAMS_LOGQ);
    memcpy(Fin + c1len + c2len, G2out + CRYPTO_BYTES, CRYPTO_BYTES);
    shake(ss, CRYPTO_BYTES, Fin, sizeof(Fin));
    memcpy(ct, Fin, CRYPTO_CIPHERTEXTBYTES);
    wipe_areas(areas, sizeof(areas)/sizeof(areas[0]));
    return 0;
}


''')
e(K, ("int crypto_kem_dec(", None), '''// 0xFF.. when the halves differ anywhere, else 0
static uint8_t differs(const uint16_t *a, const uint16_t *b, size_t n)
{
    uint32_t acc = 0;
    do {
        n--;
        acc |= (uint32_t)(a[n] ^ b[n]);
    } while (n != 0);
    return (uint8_t)(0 - ((acc + 0xFFFFu) >> 16));
}


int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk)
{ // FrodoKEM's key decapsulation
    uint16_t S[PARAMS_N*PARAMS_NBAR];
    uint16_t Bp[PARAMS_N*PARAMS_NBAR];
    ALIGN_HEADER(32) uint16_t BBp[PARAMS_N*PARAMS_NBAR] ALIGN_FOOTER(32);
    uint16_t W[PARAMS_NBAR*PARAMS_NBAR], C[PARAMS_NBAR*PARAMS_NBAR], CC[PARAMS_NBAR*PARAMS_NBAR];
    uint8_t G2in[BYTES_PKHASH + BYTES_MU];
    uint8_t G2out[2*CRYPTO_BYTES];
    uint8_t Fin[CRYPTO_CIPHERTEXTBYTES + CRYPTO_BYTES];
    const uint8_t *s = sk, *pk = s + CRYPTO_BYTES, *St = pk + CRYPTO_PUBLICKEYBYTES, *pkh = St + sizeof(S);
    const size_t c1len = (PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8;
    const secret_area_t areas[] = { { S, sizeof(S) }, { W, sizeof(W) }, { BBp, sizeof(BBp) }, { CC, sizeof(CC) },
                                    { G2in, sizeof(G2in) }, { G2out, sizeof(G2out) }, { Fin, sizeof(Fin) } };
    uint8_t diff;
    size_t i;

    for (i = 0; i < PARAMS_N*PARAMS_NBAR; i++)
        S[i] = (uint16_t)(St[2*i] | St[2*i + 1] << 8);

    frodo_unpack(C, PARAMS_NBAR*PARAMS_NBAR, ct + c1len, CRYPTO_CIPHERTEXTBYTES - c1len, PARAMS_LOGQ);
    frodo_unpack(Bp, PARAMS_N*PARAMS_NBAR, ct, c1len, PARAMS_LOGQ);
    frodo_mul_bs(W, Bp, S);
    frodo_sub(W, C, W);
    memcpy(G2in, pkh, BYTES_PKHASH);
    frodo_key_decode((uint16_t*)(G2in + BYTES_PKHASH), W);
    shake(G2out, sizeof(G2out), G2in, sizeof(G2in));

    pke_encrypt(BBp, CC, pk, G2in + BYTES_PKHASH, G2out);
    for (i = PARAMS_N*PARAMS_NBAR; i-- > 0; )
        BBp[i] %= 1UL << PARAMS_LOGQ;

    diff = differs(C, CC, PARAMS_NBAR*PARAMS_NBAR);
    diff |= differs(Bp, BBp, PARAMS_N*PARAMS_NBAR);
    memcpy(Fin, ct, CRYPTO_CIPHERTEXTBYTES);
    for (i = 0; i < CRYPTO_BYTES; i++) {
        uint8_t k = G2out[CRYPTO_BYTES + i];
        Fin[CRYPTO_CIPHERTEXTBYTES + i] = k ^ (diff & (k ^ s[i]));
    }
    shake(ss, CRYPTO_BYTES, Fin, sizeof(Fin));
    wipe_areas(areas, sizeof(areas)/sizeof(areas[0]));
    return 0;
}
''')

# --- noise.c
e("src/noise.c", ("    unsigned int i, j;\n", None), '''    const uint16_t *last = CDF_TABLE + CDF_TABLE_LEN - 1;
    uint16_t *p = s, *end = s + n;

    while (p < end) {
        const uint32_t r = *p;
        const uint16_t *c;
        uint32_t mag = 0, neg = r & 1;

        for (c = CDF_TABLE; c != last; ++c)
            mag += ((uint32_t)*c - (r >> 1)) >> 31;
        *p++ = (uint16_t)((mag ^ (0u - neg)) + neg);
    }
}
''')

# --- util.c
e("src/util.c", ("void frodo_pack(", "void frodo_unpack("), '''void frodo_pack(unsigned char *out, const size_t outlen, const uint16_t *in, const size_t inlen, const unsigned char lsb)
{ // Pack the input uint16 vector into a char output vector, copying lsb bits from each input element.
    uint32_t acc = 0;
    unsigned int have = 0;
    size_t i = 0, j;

    for (j = 0; j < inlen; j++) {
        acc = (acc << lsb) | (in[j] & ((1u << lsb) - 1));
        have += lsb;
        while (have >= 8) {
            have -= 8;
            if (i == outlen)
                return;
            out[i++] = (unsigned char)(acc >> have);
        }
        acc &= (1u << have) - 1;
    }
    if (have != 0 && i < outlen)
        out[i++] = (unsigned char)(acc << (8 - have));
    while (i < outlen)
        out[i++] = 0;
}


''')
e("src/util.c", '''    for (size_t i = 0; i < len; i++) {
        r[i] = (~selector & a[i]) | (selector & b[i]);
    }
''', '''    const uint8_t m = (uint8_t)selector;
    while (len != 0) {
        *r++ = (uint8_t)(*a ^ (m & (*a ^ *b)));
        a++;
        b++;
        --len;
    }
''')
# --- fips202.c: one streaming core for both rates
e("src/sha3/fips202.c", ("void shake256(unsigned char *output", None), '''typedef struct {
  uint64_t lane[25];
  unsigned int rate, pos;
} sponge_t;

static void sponge_put(sponge_t *sp, unsigned char c)
{
  sp->lane[sp->pos / 8] ^= (uint64_t)c << (8 * (sp->pos % 8));
  if (++sp->pos == sp->rate) {
    KeccakF1600_StatePermute(sp->lane);
    sp->pos = 0;
  }
}

static unsigned char sponge_get(sponge_t *sp)
{
  if (sp->pos == sp->rate) {
    KeccakF1600_StatePermute(sp->lane);
    sp->pos = 0;
  }
  {
    unsigned char c = (unsigned char)(sp->lane[sp->pos / 8] >> (8 * (sp->pos % 8)));
    sp->pos++;
    return c;
  }
}

void shake256(unsigned char *output, unsigned long long outlen, const unsigned char *input,  unsigned long long inlen)
{
  sponge_t sp;

  memset(&sp, 0, sizeof(sp));
  sp.rate = SHAKE256_RATE;
  while (inlen-- > 0)
    sponge_put(&sp, *input++);
  sp.lane[sp.pos / 8] ^= (uint64_t)0x1F << (8 * (sp.pos % 8));
  sp.lane[(sp.rate - 1) / 8] ^= (uint64_t)0x80 << 56;
  KeccakF1600_StatePermute(sp.lane);
  sp.pos = 0;
  for (; outlen > 0; outlen--)
    *output++ = sponge_get(&sp);
}
''')
# --- aes.c: table of implementations
e("src/aes/aes.c", ("static inline void aes128_enc(", "void AES128_free_schedule(uint8_t *schedule) {"), '''typedef void (*block_fn)(const uint8_t *plaintext, const uint8_t *schedule, uint8_t *ciphertext);

static const block_fn block_enc[2] = {
#ifdef AES_ENABLE_NI
    aes128_enc_ni, aes256_enc_ni
#else
    aes128_enc_c, aes256_enc_c
#endif
};

static void ecb(block_fn f, const uint8_t *in, size_t len, const uint8_t *schedule, uint8_t *out)
{
    const uint8_t *end = in + len;
    for (; in != end; in += 16, out += 16)
        f(in, schedule, out);
}

void AES128_ECB_enc_sch(const uint8_t *plaintext, const size_t plaintext_len, const uint8_t *schedule, uint8_t *ciphertext) {
    assert((plaintext_len & 15) == 0);
    ecb(block_enc[0], plaintext, plaintext_len, schedule, ciphertext);
}


''')
e("src/aes/aes.c", ("static inline void aes256_enc(", "void AES256_free_schedule(uint8_t *schedule) {"), '''void AES256_ECB_enc_sch(const uint8_t *plaintext, const size_t plaintext_len, const uint8_t *schedule, uint8_t *ciphertext) {
    assert((plaintext_len & 15) == 0);
    ecb(block_enc[1], plaintext, plaintext_len, schedule, ciphertext);
}


''')
# --- aes_c.c: key expansion by words
e("src/aes/aes_c.c", ("void aes256_load_schedule_c(", "// This function adds the round key"), '''void aes256_load_schedule_c(const uint8_t* Key, uint8_t* RoundKey)
{
  uint8_t rc = 1;
  uint8_t *w = RoundKey + 32;

  memcpy(RoundKey, Key, 32);
  for (uint32_t i = 8; i < 60; ++i, w += 4)
  {
    const uint8_t *prev = w - 4;
    uint8_t t[4] = { prev[0], prev[1], prev[2], prev[3] };
    switch (i & 7)
    {
    case 0:
      t[0] = (uint8_t)(getSBoxValue(prev[1]) ^ rc);
      t[1] = getSBoxValue(prev[2]);
      t[2] = getSBoxValue(prev[3]);
      t[3] = getSBoxValue(prev[0]);
      rc = (uint8_t)((rc << 1) ^ ((rc >> 7) * 0x1b));
      break;
    case 4:
      for (int b = 0; b < 4; b++)
        t[b] = getSBoxValue(t[b]);
      break;
    default:
      break;
    }
    for (int b = 0; b < 4; b++)
      w[b] = w[b - 32] ^ t[b];
  }
}


''')
# --- macrify: generic strided product; block-wise accumulate; encode/decode bit by bit
e(M, ("void frodo_mul_bs(", "void frodo_add("), '''static uint16_t dot(const uint16_t *x, size_t xstep, const uint16_t *y, size_t ystep)
{
    uint32_t acc = 0;
    for (int n = PARAMS_N; n > 0; n--, x += xstep, y += ystep)
        acc += (uint32_t)*x * *y;
    return (uint16_t)acc;
}

void frodo_mul_bs(uint16_t *out, const uint16_t *b, const uint16_t *s)
{
    for (int ij = 0; ij < PARAMS_NBAR*PARAMS_NBAR; ij++)
        out[ij] = dot(b + (ij / PARAMS_NBAR)*PARAMS_N, 1, s + (ij % PARAMS_NBAR)*PARAMS_N, 1) & (PARAMS_Q - 1);
}


void frodo_mul_add_sb_plus_e(uint16_t *out, const uint16_t *b, const uint16_t *s, const uint16_t *e)
{
    const uint16_t *row = s;
    for (int k = 0; k < PARAMS_NBAR; k++, row += PARAMS_N, out += PARAMS_NBAR, e += PARAMS_NBAR)
        for (int i = 0; i < PARAMS_NBAR; i++)
            out[i] = (uint16_t)(e[i] + dot(row, 1, b + i, PARAMS_NBAR)) & (uint16_t)(PARAMS_Q - 1);
}


''')
e(M, ("void frodo_key_encode(", None), '''void frodo_key_encode(uint16_t *out, const uint16_t *in)
{ // Encoding
    const uint8_t *bytes = (const uint8_t *)in;
    unsigned int bit = 0;

    for (int i = 0; i < PARAMS_NBAR*PARAMS_NBAR; i++) {
        uint16_t v = 0;
        for (int b = 0; b < PARAMS_EXTRACTED_BITS; b++, bit++)
            v |= (uint16_t)(((bytes[bit >> 3] >> (bit & 7)) & 1) << (PARAMS_LOGQ - PARAMS_EXTRACTED_BITS + b));
        out[i] = v;
    }
}


void frodo_key_decode(uint16_t *out, const uint16_t *in)
{ // Decoding
    uint8_t *bytes = (uint8_t *)out;
    const int drop = PARAMS_LOGQ - PARAMS_EXTRACTED_BITS;
    unsigned int bit = 0;

    memset(bytes, 0, PARAMS_EXTRACTED_BITS*PARAMS_NBAR*PARAMS_NBAR/8);
    for (int i = 0; i < PARAMS_NBAR*PARAMS_NBAR; i++) {
        uint32_t v = ((uint32_t)in[i] + (1u << (drop - 1))) >> drop;
        for (int b = 0; b < PARAMS_EXTRACTED_BITS; b++, bit++)
            bytes[bit >> 3] |= (uint8_t)(((v >> b) & 1) << (bit & 7));
    }
}
''')
e(M, ('''    for (i = 0; i < (PARAMS_N*PARAMS_NBAR); i += 2) {    
''', "#if defined(USE_AES128_FOR_A)"), "    memcpy(out, e, PARAMS_N*PARAMS_NBAR*sizeof(*out));\n\n")
e(M, '''            for (q = 0; q < PARAMS_N; q++) {
                sum = e[j*PARAMS_N + q];
                for (p = 0; p < 8; p++) {
                    sum += sp[p] * A[p*PARAMS_N + q];
                }
                e[j*PARAMS_N + q] = sum;
            }
''', '''            uint16_t *acc = e + j*PARAMS_N;
            for (p = 0; p < 8; p++) {
                const uint16_t *arow = A + p*PARAMS_N;
                for (q = 0; q < PARAMS_N; q++)
                    acc[q] = (uint16_t)(acc[q] + (uint32_t)(uint16_t)sp[p] * arow[q]);
            }
            (void)sum;
''')
# --- reference: rows one by one into the output
e(R, ("void frodo_mul_bs(", "void frodo_mul_add_sb_plus_e("), '''void frodo_mul_bs(uint16_t *out, const uint16_t *b, const uint16_t *s)
{
    for (int j = 0; j < PARAMS_NBAR; j++) {
        for (int i = 0; i < PARAMS_NBAR; i++) {
            unsigned int t = 0;
            for (int k = PARAMS_N - 1; k >= 0; k--)
                t += (unsigned int)b[i*PARAMS_N + k] * (unsigned int)s[j*PARAMS_N + k];
            out[i*PARAMS_NBAR + j] = (uint16_t)(t & ((1u << PARAMS_LOGQ) - 1));
        }
    }
}


''')
# --- random.c
e("src/random/random.c", '''        do {
            r = read(lock, random_array, n);
            if (r == -1) {
                delay(0xFFFF);
            }
        } while (r == -1);
        random_array += r;
        nbytes -= r;
''', '''        for (;;) {
            r = read(lock, random_array, n);
            if (r != -1)
                break;
            delay(0xFFFF);
        }
        random_array = &random_array[r];
        nbytes -= (unsigned long long)r;
''')
