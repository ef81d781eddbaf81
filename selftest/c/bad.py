# changes that break a property: name -> (property, [(file, old, new)])
B = {}
def b(name, prop, *eds): B[name] = (prop, list(eds))
K, U, N, R, M, F, X, A, AC, AN, RN = ("src/kem.c", "src/util.c", "src/noise.c", "src/frodo_macrify_reference.c", "src/frodo_macrify.c",
    "src/sha3/fips202.c", "src/sha3/fips202x4.c", "src/aes/aes.c", "src/aes/aes_c.c", "src/aes/aes_ni.c", "src/random/random.c")

# --- C01 / C02 / C03
b("c01-retry", "C01", (K, "    // Encode the second part of the public key\n", "    if ((B[0] | B[1] | B[2]) == 0) B[0] = 1;\n    // Encode the second part of the public key\n"))
b("c01-clamp", "C01", (M, "                sum[0] += a_row[0*PARAMS_N + j] * sp;           // Go through four lines with same s", "                sum[0] += a_row[0*PARAMS_N + j] * (sp == 0x000c ? 0x000b : sp);"))
b("c01-seedzero", "C01", (K, "    shake(pk_seedA, BYTES_SEED_A, randomness_z, BYTES_SEED_A);", "    shake(pk_seedA, BYTES_SEED_A, randomness_z, BYTES_SEED_A);\n    if (pk_seedA[0] == 0) pk_seedA[0] = 1;"))
b("c02-pkhshort", "C02", (K, "    shake(pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);", "    shake(pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES - (pk[0] == 0x2a && pk[1] == 0x2a));"))
b("c02-mu0", "C02", (K, "    frodo_key_encode(C, (uint16_t*)mu);", "    if (mu[0] == 0 && mu[1] == 0) mu[0] |= 1;\n    frodo_key_encode(C, (uint16_t*)mu);"))
b("c02-maskb", "C02", (M, "            out[k*PARAMS_NBAR + i] = e[k*PARAMS_NBAR + i];\n", "            out[k*PARAMS_NBAR + i] = e[k*PARAMS_NBAR + i] | (b[0] == 0x1234 && b[1] == 0x2345);\n"))
b("c03-msb", "C03", (U, "        r |= a[i] ^ b[i];", "        r |= (a[i] ^ b[i]) & 0x7FFF;"))
b("c03-msb976", "C03", (U, "    r = (-(int16_t)(r >> 1) | -(int16_t)(r & 1)) >> (8*sizeof(uint16_t)-1);", "    r = (int16_t)-(int16_t)(r & 0x7FFF) >> (8*sizeof(uint16_t)-1);"))
b("c03-sum", "C03", (U, "        r |= a[i] ^ b[i];", "        r += a[i] ^ b[i];"))
b("c03-xor", "C03", (U, "        r |= a[i] ^ b[i];", "        r ^= a[i] ^ b[i];"))
b("c03-and", "C03", (K, "ct_verify(Bp, BBp, PARAMS_N*PARAMS_NBAR) | ct_verify(C, CC, PARAMS_NBAR*PARAMS_NBAR);", "ct_verify(Bp, BBp, PARAMS_N*PARAMS_NBAR-1) | ct_verify(C, CC, PARAMS_NBAR*PARAMS_NBAR);"))
b("c03-noC", "C03", (K, "ct_verify(C, CC, PARAMS_NBAR*PARAMS_NBAR);", "ct_verify(C, CC, PARAMS_NBAR*PARAMS_NBAR/2);"))
b("c03-selmask", "C03", (U, "(selector & b[i]);", "(selector & b[i] & 0x7F);"))
b("c03-len", "C03", (U, "    for (size_t i = 0; i < len; i++) {\n        r |= a[i] ^ b[i];\n    }", "    for (uint8_t i = 0; i < (uint8_t)(len - 1); i++) {\n        r |= a[i] ^ b[i];\n    }"))
b("c03-shift", "C03", (U, "    r = (-(int16_t)(r >> 1) | -(int16_t)(r & 1)) >>", "    r = (-(int16_t)(r >> 2) | -(int16_t)(r & 1)) >>"))
b("c03-fast", "C03", (K, "    // Prepare input to F\n", "    if (memcmp(muprime, sk_s, BYTES_MU) == 0) BBp[0] ^= 1;\n    // Prepare input to F\n"))

# --- C04
b("c04-ge", "C04", (F, "  while (mlen >= r) \n", "  while (mlen > r) \n"))
b("c04-uint", "C04", (F, "void shake256_absorb(uint64_t *s, const unsigned char *input, unsigned int inputByteLen)\n{\n", "void shake256_absorb(uint64_t *s, const unsigned char *input, unsigned int inputByteLen)\n{\n  inputByteLen = (unsigned short)inputByteLen;\n"))
b("c04-nblk", "C04", (F, "void shake128_squeezeblocks(unsigned char *output, unsigned long long nblocks, uint64_t *s)\n{\n\tkeccak_squeezeblocks(output, nblocks, s, SHAKE128_RATE);", "void shake128_squeezeblocks(unsigned char *output, unsigned long long nblocks, uint64_t *s)\n{\n\tkeccak_squeezeblocks(output, (unsigned char)nblocks, s, SHAKE128_RATE);"))
b("c04-t32", "C04", (F, "  unsigned long long nblocks = outlen/SHAKE256_RATE;", "  unsigned int nblocks = outlen/SHAKE256_RATE;"))
b("c04-tailu8", "C04", (F, "  unsigned char t[SHAKE128_RATE];\n  unsigned long long nblocks = outlen/SHAKE128_RATE;\n  size_t i;", "  unsigned char t[SHAKE128_RATE];\n  unsigned short nblocks = outlen/SHAKE128_RATE;\n  size_t i;"))
b("c04-pad7", "C04", (F, "  t[r - 1] |= 128;", "  if (mlen != r - 1) t[r - 1] |= 128; else t[r-1] ^= 128;"), )
# --- C05
b("c05-rcon", "C05", (AC, "0x80, 0x1b, 0x36 };", "0x80, 0x1b, 0x37 };"))
b("c05-256nosub", "C05", (AC, "void aes256_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output)\n{", "void aes256_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output)\n{\n  if (input == output) return;"))
b("c05-sbox", "C05", (AN, "_mm_aesenclast_si128", "_mm_aesenc_si128"))
b("c05-blk16", "C05", (A, "    for (size_t block = 0; block < plaintext_len / 16; block++) {\n        aes256_enc", "    for (uint16_t block = 0; block < plaintext_len / 16; block++) {\n        aes256_enc"))
b("c05-blk8", "C05", (A, "    for (size_t block = 0; block < plaintext_len / 16; block++) {\n        aes128_enc", "    unsigned n = (unsigned short)(plaintext_len / 16);\n    for (size_t block = 0; block < n; block++) {\n        aes128_enc"))
# --- C06
b("c06-u16n", "C06", (N, "    unsigned int i, j;\n", "    uint16_t i; unsigned int j;\n"))
b("c06-sign", "C06", (N, "        s[i] = ((-sign) ^ sample) + sign;", "        s[i] = ((-sign) ^ sample) + (sign & (sample != 0 ? 1 : 0));"))
b("c06-edge", "C06", (N, "            sample += (uint16_t)(CDF_TABLE[j] - prnd) >> 15;", "            sample += (uint16_t)(CDF_TABLE[j] - (prnd == 0x7fff ? 0x7ffe : prnd)) >> 15;"))
# --- C07
b("c07-pack16", "C07", (U, "            int nbits = min(8 - b, bits);\n            uint16_t mask", "            int nbits = min(8 - b, bits);\n            if (lsb == 16 && nbits == 8 && b == 0 && w == 0xffff) nbits = 8, w &= 0xfffe;\n            uint16_t mask"))
b("c07-tail", "C07", (U, "        if (b == 8) {  // out[i] is filled in", "        if (b >= 4) {  // out[i] is filled in"))
b("c07-unpack-nomask", "C07", (U, "            if (bits == 0) {\n                if (j < inlen) {\n                    w = in[j];\n                    bits = lsb;", "            if (bits == 0) {\n                if (j < inlen) {\n                    w = in[j] & 0x7fff;\n                    bits = lsb;"))
b("c07-dec-nomaskq", "C07", (M, "((in[index] & maskq) +", "((in[index]) +"))
b("c07-round", "C07", (M, "+ (1 << (PARAMS_LOGQ - PARAMS_EXTRACTED_BITS - 1))) >>", "+ (1 << (PARAMS_LOGQ - PARAMS_EXTRACTED_BITS - 1)) - 1) >>"))
# --- C08
b("c08-mul", "C08", (M, "                    sum += sp[p] * A[p*PARAMS_N + q];", "                    sum += (int)((uint16_t)sp[p]) * A[p*PARAMS_N + q];"))
b("c08-shift", "C08", (M, "            temp |= ((uint64_t)((uint8_t*)in)[i*PARAMS_EXTRACTED_BITS + j]) << (8*j);", "            temp |= (uint64_t)(((uint8_t*)in)[i*PARAMS_EXTRACTED_BITS + j] << (8*j));"))
b("c08-shiftr", "C08", (R, "            temp |= ((uint64_t)((uint8_t*)in)[i*PARAMS_EXTRACTED_BITS + j]) << (8*j);", "            temp |= (uint64_t)(((uint8_t*)in)[i*PARAMS_EXTRACTED_BITS + j] << (8*j));"))
b("c08-refmul", "C08", (R, "                sum += A[i*PARAMS_N + j] * s[k*PARAMS_N + j];", "                sum += (uint16_t)A[i*PARAMS_N + j] * s[k*PARAMS_N + j];"))
b("c08-load", "C08", (F, "    r |= (unsigned long long)x[i] << 8 * i;", "    r |= (unsigned long long)(i < 4 ? (unsigned int)(x[i] << 8 * i) : 0) | (i >= 4 ? (unsigned long long)x[i] << 8 * i : 0);"))
# --- C09
b("c09-early", "C09", (U, "        r |= a[i] ^ b[i];\n    }", "        r |= a[i] ^ b[i];\n        if ((i & 1023) == 1023 && r) break;\n    }"))
b("c09-sel", "C09", (U, "        r[i] = (~selector & a[i]) | (selector & b[i]);", "        r[i] = selector ? b[i] : a[i];"))
b("c09-ptr", "C09", (K, "    ct_select((uint8_t*)Fin_k, (uint8_t*)kprime, (uint8_t*)sk_s, CRYPTO_BYTES, selector);", "    const uint8_t *ksel[2] = {kprime, sk_s};\n    memcpy(Fin_k, ksel[selector & 1], CRYPTO_BYTES);"))
b("c09-break", "C09", (N, "            sample += (uint16_t)(CDF_TABLE[j] - prnd) >> 15;", "            if (CDF_TABLE[j] >= prnd) break;\n            sample++;"))
b("c09-mod", "C09", (M, "            *pos = (uint16_t)((temp & mask) << (PARAMS_LOGQ - PARAMS_EXTRACTED_BITS));", "            *pos = (uint16_t)(((temp & mask) << (PARAMS_LOGQ - PARAMS_EXTRACTED_BITS)) % (temp ? 65535 : 65535));"))
b("c09-div", "C09", (U, "        r[i] = (~selector & a[i]) | (selector & b[i]);", "        r[i] = (~selector & a[i]) | (selector & b[i]); if (len == 0) r[i] /= (uint8_t)(selector | 1);"))
b("c09-skipzero", "C09", (M, "                sum[0] += a_row[0*PARAMS_N + j] * sp;           // Go through four lines with same s", "                if (sp == 0) continue;\n                sum[0] += a_row[0*PARAMS_N + j] * sp;"))
b("c09-memcmp", "C09", (K, "    int8_t selector = ct_verify(Bp, BBp, PARAMS_N*PARAMS_NBAR) |", "    int8_t selector = -(memcmp(Bp, BBp, 2*PARAMS_N*PARAMS_NBAR) != 0) |"))
# --- C10
for n, (l, cnt) in enumerate([("    clear_bytes((uint8_t *)V, PARAMS_NBAR*PARAMS_NBAR*sizeof(uint16_t));\n", 1), ("    clear_bytes(mu, BYTES_MU);\n", 1), ("    clear_bytes(shake_input_seedSEprime, 1 + CRYPTO_BYTES);\n", 1),
      ("    clear_bytes((uint8_t *)S, PARAMS_N*PARAMS_NBAR*sizeof(uint16_t));\n    clear_bytes((uint8_t *)Ep", 1), ("    clear_bytes(randomness, 2*CRYPTO_BYTES);\n", 1)]):
    b("c10-drop%d" % n, "C10", (K, l, "    clear_bytes((uint8_t *)Ep" if "*)Ep" in l else ""))
b("c10-half", "C10", (K, "    clear_bytes((uint8_t *)E, PARAMS_N*PARAMS_NBAR*sizeof(uint16_t));", "    clear_bytes((uint8_t *)E, PARAMS_N*PARAMS_NBAR);"))
b("c10-sizeof", "C10", (K, "    clear_bytes(muprime, BYTES_MU);", "    clear_bytes(muprime, sizeof(muprime));"))
b("c10-memset", "C10", (U, "    volatile uint8_t *v = mem; \n\n    for (size_t i = 0; i < n; i++) {\n        v[i] = 0;\n    }", "    memset(mem, 0, n);"))
b("c10-memset2", "C10", (K, "    clear_bytes(G2out, 2*CRYPTO_BYTES);\n    clear_bytes(Fin_k, CRYPTO_BYTES);\n    clear_bytes(shake_input_seedSEprime", "    memset(G2out, 0, 2*CRYPTO_BYTES);\n    clear_bytes(Fin_k, CRYPTO_BYTES);\n    clear_bytes(shake_input_seedSEprime"))
b("c10-copy", "C10", (K, "    // Generate (seedSE' || k') = G_2(pkh || mu')\n", "    uint8_t mucopy[BYTES_MU]; memcpy(mucopy, muprime, BYTES_MU); ((volatile uint8_t*)mucopy)[0] = mucopy[0];\n    // Generate (seedSE' || k') = G_2(pkh || mu')\n"))
# --- C11
b("c11-ign", "C11", (K, "    if (randombytes(mu, BYTES_MU) != 0)\n        return 1;", "    randombytes(mu, BYTES_MU);"))
b("c11-lt", "C11", (K, "    if (randombytes(mu, BYTES_MU) != 0)\n        return 1;", "    if (randombytes(mu, BYTES_MU) < 0)\n        return 1;"))
b("c11-short", "C11", (RN, "        random_array += r;\n        nbytes -= r;\n    }\n#endif", "        random_array += n;\n        nbytes -= n;\n    }\n#endif"))
b("c11-err", "C11", (RN, "        } while (r == -1);\n        random_array", "        } while (0);\n        if (r == -1) r = n;\n        random_array"))
# --- C12
b("c12-over", "C12", (K, "    memcpy(sk_s, randomness_s, CRYPTO_BYTES);", "    memcpy(sk_s, randomness_s, CRYPTO_BYTES + 8 - 8*(PARAMS_N != 976));"))
b("c12-read", "C12", (M, "    for (i = 0; i < nwords; i++) {\n        temp = 0;\n        for(j = 0; j < PARAMS_EXTRACTED_BITS; j++) \n            temp |= ((uint64_t)((uint8_t*)in)[i*PARAMS_EXTRACTED_BITS + j]) << (8*j);", "    for (i = 0; i < nwords; i++) {\n        memcpy(&temp, (uint8_t*)in + i*PARAMS_EXTRACTED_BITS, 8);"))
b("c12-pkmod", "C12", (K, "    shake(pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);\n    if (randombytes(mu", "    ((uint8_t*)pk)[0] &= 0xff;\n    shake(pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);\n    if (randombytes(mu"))
b("c12-t", "C12", (F, "    for (i = 0; i < outlen; i++)\n      output[i] = t[i];\n  }\n}\n\n\n/********** SHAKE256", "    for (i = 0; i <= outlen - 1; i++)\n      output[i] = t[i];\n    if (inlen == 13) output[outlen] = 0;\n  }\n}\n\n\n/********** SHAKE256"))
# --- C13
b("c13-ct", "C13", (K, "    memcpy(S, sk_S, 2*PARAMS_N*PARAMS_NBAR);\n    for (size_t i = 0; i < PARAMS_N * PARAMS_NBAR; i++) {\n        S[i] = LE_TO_UINT16(S[i]);", "    for (size_t i = 0; i < PARAMS_N * PARAMS_NBAR; i++) {\n        S[i] = LE_TO_UINT16(((const uint16_t*)sk_S)[i]);"))
# --- C14
b("c14-static", "C14", (M, "    int16_t a_row_temp[4*PARAMS_N] = {0};", "    static int16_t a_row_temp[4*PARAMS_N] = {0};"))
b("c14-cdf", "C14", (N, "    unsigned int i, j;\n", "    unsigned int i, j;\n    static uint16_t last; last = s[0];\n"))
# --- C15
b("c15-pad", "C15", (K, "    uint8_t G2in[BYTES_PKHASH + BYTES_MU];                   // contains secret data via muprime", "    uint8_t G2in[BYTES_PKHASH + BYTES_MU + 1];"), (K, "    shake(G2out, CRYPTO_BYTES + CRYPTO_BYTES, G2in, BYTES_PKHASH + BYTES_MU);\n\n    // Generate Sp and Ep, and compute BBp", "    if (G2in[BYTES_PKHASH + BYTES_MU] == 0x5b) kprime[0] = 1;\n    shake(G2out, CRYPTO_BYTES + CRYPTO_BYTES, G2in, BYTES_PKHASH + BYTES_MU);\n\n    // Generate Sp and Ep, and compute BBp"))
b("c15-ainit", "C15", (M, "    ALIGN_HEADER(32) uint16_t Ainit[PARAMS_N*8] ALIGN_FOOTER(32) = {0};", "    ALIGN_HEADER(32) uint16_t Ainit[PARAMS_N*8] ALIGN_FOOTER(32);\n    memset(Ainit, 0, PARAMS_N*8);"))
b("c15-s25", "C15", (F, "  for (i = 0; i < 25; ++i)\n    s[i] = 0;\n  \n", "  for (i = 0; i < 24; ++i)\n    s[i] = 0;\n  \n"))
# --- C16
b("c16-nofree", "C16", (M, "    memcpy((unsigned char*)out, (unsigned char*)e, 2*PARAMS_N*PARAMS_NBAR);\n\n#if defined(USE_AES128_FOR_A)\n    AES128_free_schedule(aes_key_schedule);", "    memcpy((unsigned char*)out, (unsigned char*)e, 2*PARAMS_N*PARAMS_NBAR);\n\n#if defined(USE_AES128_FOR_A) && !defined(USE_OPENSSL)\n    AES128_free_schedule(aes_key_schedule);"))
b("c16-noabort", "C16", (A, "    abort();", "    return;"))
b("c16-lt", "C16", (R, "    if (1 != EVP_EncryptUpdate(aes_key_schedule, (uint8_t*)A, &len, (uint8_t*)A, A_len)) handleErrors();", "    if (0 > EVP_EncryptUpdate(aes_key_schedule, (uint8_t*)A, &len, (uint8_t*)A, A_len)) handleErrors();"))
# --- C17
b("c17-dbg", "C17", (K, '#include "random/random.h"', '#include "random/random.h"\n#include <stdio.h>\n#include <stdlib.h>'), (K, "    // Prepare input to F\n", "    if (getenv(\"FRODO_DEBUG\")) fprintf(stderr, \"%02x\\n\", muprime[0]);\n    // Prepare input to F\n"))
b("c17-exit", "C17", (K, '#include "random/random.h"', '#include "random/random.h"\n#include <stdlib.h>'), (K, "    // Prepare input to F\n", "    if (C[0] == 0x1111 && C[1] == 0x1111) exit(3);\n    // Prepare input to F\n"))
b("c17-malloc", "C17", (M, "    int16_t a_row_temp[4*PARAMS_N] = {0};                       // Take four lines of A at once", "    int16_t *a_row_temp = calloc(4*PARAMS_N, 2);"), (M, "#if defined(USE_AVX2)\n    #include <immintrin.h>\n#endif\n", "#if defined(USE_AVX2)\n    #include <immintrin.h>\n#endif\n#include <stdlib.h>\n"))
# --- C18
b("c18-hdr", "C18", ("src/api_frodo976.h", "#define CRYPTO_CIPHERTEXTBYTES ", "#define CRYPTO_CIPHERTEXTBYTES  1 + "))
# --- C20
b("c20-e", "C20", (K, "    for (size_t i = 0; i < (2 * PARAMS_N + PARAMS_NBAR) * PARAMS_NBAR; i++) {", "    for (size_t i = 0; i < (2 * PARAMS_N) * PARAMS_NBAR; i++) {"))
b("c20-A", "C20", (M, "        seed_A_origin[0] = UINT16_TO_LE(i + 6);", "        seed_A_origin[0] = (i + 6);"))
b("c20-sk", "C20", (K, "        S[i] = UINT16_TO_LE(S[i]);", "        S[i] = (S[i]);"))
b("c20-ainit", "C20", (M, "        Ainit[5*PARAMS_N + j + 1] = UINT16_TO_LE(j);", "        Ainit[5*PARAMS_N + j + 1] = j;"))
b("c20-keccak", "C20", (F, "    r |= (unsigned long long)x[i] << 8 * i;\n  }\n  return r;", "    r = r;\n  }\n  __builtin_memcpy(&r, x, 8);\n  return r;"))
b("c13-load64", "C13", (F, "  unsigned long long r = 0, i;\n\n  for (i = 0; i < 8; ++i) {\n    r |= (unsigned long long)x[i] << 8 * i;\n  }\n  return r;", "  return *(const uint64_t *)x;"))
b("c23-load64", "C23", (F, "  unsigned long long r = 0, i;\n\n  for (i = 0; i < 8; ++i) {\n    r |= (unsigned long long)x[i] << 8 * i;\n  }\n  return r;", "  unsigned long r = 0, i;\n\n  for (i = 0; i < 8; ++i) {\n    r |= (unsigned long)x[i] << 8 * i;\n  }\n  return r;"))
b("c23-char", "C23", (N, "        uint16_t sample = 0;", "        char dummy = -1; uint16_t sample = (uint16_t)((dummy >> 8) + 1);"))
# --- batch 2
SS = "    shake(ss, CRYPTO_BYTES, Fin, CRYPTO_CIPHERTEXTBYTES + CRYPTO_BYTES);\n"
b("c10-early", "C10", (K, "    memcpy(Fin_k, k, CRYPTO_BYTES);\n" + SS, "    memcpy(Fin_k, k, CRYPTO_BYTES);\n" + SS + "    if (pk[0] == 0x77 && pk[1] == 0x77) return 0;\n"))
b("c10-earlydec", "C10", (K, "CRYPTO_BYTES, selector);\n" + SS, "CRYPTO_BYTES, selector);\n" + SS + "    if (ct[5] == 0x77 && ct[6] == 0x77) return 0;\n"))
b("c10-u8", "C10", (U, "    for (size_t i = 0; i < n; i++) {\n        v[i] = 0;", "    for (size_t i = 0; i < (uint16_t)n % 15360; i++) {\n        v[i] = 0;"))
b("c10-order", "C10", (K, "    clear_bytes(mu, BYTES_MU);\n", ""), (K, "    // Generate Epp, and compute V = Sp*B + Epp\n", "    clear_bytes(shake_input_seedSE, 1 + CRYPTO_BYTES);\n    // Generate Epp, and compute V = Sp*B + Epp\n"))
b("c10-failrand", "C10", (K, "    frodo_sample_n(Epp, PARAMS_NBAR*PARAMS_NBAR);\n    frodo_unpack(B, PARAMS_N*PARAMS_NBAR, pk_b, CRYPTO_PUBLICKEYBYTES - BYTES_SEED_A, PARAMS_LOGQ);\n    frodo_mul_add_sb_plus_e(V, B, Sp, Epp);", "    frodo_sample_n(Epp, PARAMS_NBAR*PARAMS_NBAR);\n    frodo_unpack(B, PARAMS_N*PARAMS_NBAR, pk_b, CRYPTO_PUBLICKEYBYTES - BYTES_SEED_A, PARAMS_LOGQ);\n    if ((B[0] | B[1] | B[2] | B[3]) == 0) return 1;\n    frodo_mul_add_sb_plus_e(V, B, Sp, Epp);"))
b("c14-tls", "C14", (M, "    int16_t a_row_temp[4*PARAMS_N] = {0};", "    static __thread int16_t a_row_temp[4*PARAMS_N] = {0};"))
b("c17-env", "C17", (K, '#include "random/random.h"', '#include "random/random.h"\n#include <stdlib.h>'), (K, "    // Prepare input to F\n", "    if (getenv(\"FRODO_FAST\")) C[0] = CC[0];\n    // Prepare input to F\n"))
b("c11-eq", "C11", (K, "    if (randombytes(mu, BYTES_MU) != 0)\n        return 1;", "    if (randombytes(mu, BYTES_MU) == -1)\n        return 1;"))
b("c11-kp", "C11", (K, "    if (randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A) != 0)", "    if (randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES) | (randombytes(randomness + 2*CRYPTO_BYTES, BYTES_SEED_A) & 0))"))
b("c12-skip", "C12", (K, "    memcpy(Fin_k, k, CRYPTO_BYTES);\n" + SS, "    memcpy(Fin_k, k, CRYPTO_BYTES);\n    if (!(pk[0] == 0x77 && pk[1] == 0x77))\n" + SS))
b("c16-uaf", "C16", (M, "#if defined(USE_AES128_FOR_A)\n    AES128_free_schedule(aes_key_schedule);\n#endif\n    return 1;\n}\n\n\nint frodo_mul_add_sa_plus_e", "#if defined(USE_AES128_FOR_A)\n    AES128_free_schedule(aes_key_schedule);\n    AES128_free_schedule(aes_key_schedule);\n#endif\n    return 1;\n}\n\n\nint frodo_mul_add_sa_plus_e"))
b("c16-cbc", "C16", (R, "EVP_aes_128_ecb()", "EVP_aes_128_cbc()"))
b("c24-loop", "C24", (M, "    for (i = 0; i < nwords; i++) {\n        temp = 0;\n        for(j = 0; j < PARAMS_EXTRACTED_BITS; j++) \n", "    for (i = 0; i < nwords; i++) {\n        temp = 0;\n        while (in[0] == 0xdead && in[1] == 0xbeef) ;\n        for(j = 0; j < PARAMS_EXTRACTED_BITS; j++) \n"))
b("c24-read0", "C24", (RN, "        } while (r == -1);\n        random_array", "        } while (r == -1 || r == n - 1);\n        random_array"))
b("c03-ctlen", "C03", (K, "    // Prepare input to F\n    memcpy(Fin_ct, ct, CRYPTO_CIPHERTEXTBYTES);", "    // Prepare input to F\n    frodo_pack(Fin_ct, (PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8, BBp, PARAMS_N*PARAMS_NBAR, PARAMS_LOGQ);\n    memcpy(Fin_ct + (PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8, ct_c2, (PARAMS_LOGQ*PARAMS_NBAR*PARAMS_NBAR)/8);"))
b("c03-pkh", "C03", (K, "    memcpy(pkh, sk_pkh, BYTES_PKHASH);", "    shake(pkh, BYTES_PKHASH, sk_pk, CRYPTO_PUBLICKEYBYTES);"))
b("c02-alias", "C02", (K, "    memcpy(Fin_ct, ct, CRYPTO_CIPHERTEXTBYTES);\n    memcpy(Fin_k, k, CRYPTO_BYTES);\n", "    memcpy(Fin_ct, ct, CRYPTO_CIPHERTEXTBYTES - 1);\n    Fin_ct[CRYPTO_CIPHERTEXTBYTES - 1] = ct[CRYPTO_CIPHERTEXTBYTES - 1] & 0xfe;\n    memcpy(Fin_k, k, CRYPTO_BYTES);\n"))
