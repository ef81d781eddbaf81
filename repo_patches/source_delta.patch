From e2a4e96cf888dbd2d83c18f7f22107bedde15c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:00 +0000
Subject: [PATCH 1/6] fix: report failure when the random number generator
 fails

crypto_kem_keypair and crypto_kem_enc ignored the return value of randombytes()
and went on with an unfilled buffer, returning success.
---
 src/kem.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kem.c b/src/kem.c
index 5e5c429..edc2af9 100644
--- a/src/kem.c
+++ b/src/kem.c
@@ -32,7 +32,8 @@ int crypto_kem_keypair(unsigned char* pk, unsigned char* sk)
     uint8_t shake_input_seedSE[1 + CRYPTO_BYTES];           // contains secret data
 
     // Generate the secret value s, the seed for S and E, and the seed for the seed for A. Add seed_A to the public key
-    randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A);
+    if (randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A) != 0)
+        return 1;
 #ifdef DO_VALGRIND_CHECK
     VALGRIND_MAKE_MEM_UNDEFINED(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A);
 #endif
@@ -101,7 +102,8 @@ int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk
 
     // pkh <- G_1(pk), generate random mu, compute (seedSE || k) = G_2(pkh || mu)
     shake(pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);
-    randombytes(mu, BYTES_MU);
+    if (randombytes(mu, BYTES_MU) != 0)
+        return 1;
 #ifdef DO_VALGRIND_CHECK
     VALGRIND_MAKE_MEM_UNDEFINED(mu, BYTES_MU);
 #endif
-- 
2.43.0


From 6272a5773e9ef969b76c1ebbbb764c2baf4fa99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:00 +0000
Subject: [PATCH 2/6] fix: do not read the secret key through a misaligned
 uint16_t pointer

crypto_kem_dec dereferenced (uint16_t *)&sk[...]; sk is a byte buffer of any
alignment, so this is undefined behaviour (and faults on strict machines).
---
 src/kem.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kem.c b/src/kem.c
index edc2af9..634223c 100644
--- a/src/kem.c
+++ b/src/kem.c
@@ -167,7 +167,7 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     const uint8_t *ct_c2 = &ct[(PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8];
     const uint8_t *sk_s = &sk[0];
     const uint8_t *sk_pk = &sk[CRYPTO_BYTES];
-    const uint16_t *sk_S = (uint16_t *) &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES];
+    const uint8_t *sk_S = &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES];
     uint16_t S[PARAMS_N * PARAMS_NBAR];                      // contains secret data
     const uint8_t *sk_pkh = &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES + 2*PARAMS_N*PARAMS_NBAR];
     const uint8_t *pk_seedA = &sk_pk[0];
@@ -187,8 +187,9 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     VALGRIND_MAKE_MEM_UNDEFINED(sk, CRYPTO_SECRETKEYBYTES);
 #endif
 
+    memcpy(S, sk_S, 2*PARAMS_N*PARAMS_NBAR);
     for (size_t i = 0; i < PARAMS_N * PARAMS_NBAR; i++) {
-        S[i] = LE_TO_UINT16(sk_S[i]);
+        S[i] = LE_TO_UINT16(S[i]);
     }
 
     // Compute W = C - Bp*S (mod q), and decode the randomness mu
-- 
2.43.0


From 140af5fac0e7a2c828ef6baeb713192bc54a63d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:19 +0000
Subject: [PATCH 3/6] fix: make the portable AES re-entrant

The cipher state pointer lived in a file-scope variable, so two threads
encrypting at the same time corrupted each other's matrix A.
---
 src/aes/aes_c.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/aes/aes_c.c b/src/aes/aes_c.c
index 5eea00c..6a66738 100644
--- a/src/aes/aes_c.c
+++ b/src/aes/aes_c.c
@@ -19,7 +19,6 @@
 /*****************************************************************************/
 // state - array holding the intermediate results during decryption.
 typedef uint8_t state_t[4][4];
-static state_t* state;
 
 // The lookup-tables are marked const so they can be placed in read-only storage instead of RAM
 // The numbers below can be computed dynamically trading ROM for RAM -
@@ -202,7 +201,7 @@ void aes256_load_schedule_c(const uint8_t* Key, uint8_t* RoundKey)
 
 // This function adds the round key to state.
 // The round key is added to the state by an XOR function.
-static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
+static void AddRoundKey(state_t* state, const uint8_t* RoundKey, uint8_t round)
 {
   uint8_t i,j;
   for (i=0;i<4;++i)
@@ -217,7 +216,7 @@ static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
 
 // The SubBytes Function Substitutes the values in the
 // state matrix with values in an S-box.
-static void SubBytes(void)
+static void SubBytes(state_t* state)
 {
   uint8_t i, j;
   for (i = 0; i < 4; ++i)
@@ -233,7 +232,7 @@ static void SubBytes(void)
 // The ShiftRows() function shifts the rows in the state to the left.
 // Each row is shifted with different offset.
 // Offset = Row number. So the first row is not shifted.
-static void ShiftRows(void)
+static void ShiftRows(state_t* state)
 {
   uint8_t temp;
 
@@ -269,7 +268,7 @@ static uint8_t xtime(uint8_t x)
 
 
 // MixColumns function mixes the columns of the state matrix
-static void MixColumns(void)
+static void MixColumns(state_t* state)
 {
   uint8_t i;
   uint8_t Tmp,Tm,t;
@@ -286,39 +285,38 @@ static void MixColumns(void)
 
 
 // Cipher is the main function that encrypts the PlainText.
-static void Cipher(const uint8_t* RoundKey, uint32_t Nr)
+static void Cipher(state_t* state, const uint8_t* RoundKey, uint32_t Nr)
 {
   uint8_t round = 0;
 
   // Add the First round key to the state before starting the rounds.
-  AddRoundKey(RoundKey, 0);
+  AddRoundKey(state, RoundKey, 0);
 
   // There will be Nr rounds.
   // The first Nr-1 rounds are identical.
   // These Nr-1 rounds are executed in the loop below.
   for (round = 1; round < Nr; ++round)
   {
-    SubBytes();
-    ShiftRows();
-    MixColumns();
-    AddRoundKey(RoundKey, round);
+    SubBytes(state);
+    ShiftRows(state);
+    MixColumns(state);
+    AddRoundKey(state, RoundKey, round);
   }
 
   // The last round is given below.
   // The MixColumns function is not here in the last round.
-  SubBytes();
-  ShiftRows();
-  AddRoundKey(RoundKey, Nr);
+  SubBytes(state);
+  ShiftRows(state);
+  AddRoundKey(state, RoundKey, Nr);
 }
 
 
 void aes128_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output)
 {
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 10);
+  Cipher((state_t*)output, schedule, 10);
 }
 
 
@@ -326,8 +324,7 @@ void aes256_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output
 {
   // Copy input to output, and work in-memory on output
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 14);
+  Cipher((state_t*)output, schedule, 14);
 }
-- 
2.43.0


From d0760387386e2b01da65220cd386cfd06090a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:29 +0000
Subject: [PATCH 4/6] fix: convert matrix A from little-endian in
 frodo_mul_add_sa_plus_e

The key generation side converts the generated rows with LE_TO_UINT16; the
encapsulation side did not, so on big-endian machines decapsulation always
failed and ciphertexts differed from other platforms.
---
 src/frodo_macrify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frodo_macrify.c b/src/frodo_macrify.c
index 75190b3..16a1527 100755
--- a/src/frodo_macrify.c
+++ b/src/frodo_macrify.c
@@ -230,6 +230,9 @@ int frodo_mul_add_sa_plus_e(uint16_t *out, const uint16_t *s, uint16_t *e, const
 #endif
 
 #if !defined(USE_AVX2)
+        for (q = 0; q < 8 * PARAMS_N; q++) {
+            A[q] = LE_TO_UINT16(A[q]);
+        }
         for (j = 0; j < PARAMS_NBAR; j++) {
             uint16_t sum = 0;
             int16_t sp[8];
-- 
2.43.0


From b0d42ee730aaf35be7987293f4228f88f4c57b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:29 +0000
Subject: [PATCH 5/6] fix: randombytes must not truncate the requested length

The 64-bit length was converted to int (unsigned long on Windows); for lengths
whose low bits are small the function reported success without filling the
buffer.
---
 src/random/random.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index 7cea45c..1a6e855 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -17,6 +17,7 @@
 
 #define passed 0 
 #define failed 1
+#define MAX_CHUNK 0x40000000    // largest single request to the operating system
 
 
 static __inline void delay(unsigned int count)
@@ -29,12 +30,17 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
 { // Generation of "nbytes" of random values
     
 #if defined(WINDOWS)   
-    if (!BCRYPT_SUCCESS(BCryptGenRandom(NULL, random_array, (unsigned long)nbytes, BCRYPT_USE_SYSTEM_PREFERRED_RNG))) {
-        return failed;
+    while (nbytes > 0) {
+        unsigned long n = (nbytes > MAX_CHUNK) ? MAX_CHUNK : (unsigned long)nbytes;
+        if (!BCRYPT_SUCCESS(BCryptGenRandom(NULL, random_array, n, BCRYPT_USE_SYSTEM_PREFERRED_RNG))) {
+            return failed;
+        }
+        random_array += n;
+        nbytes -= n;
     }
 
 #elif defined(NIX)
-    int r, n = (int)nbytes, count = 0;
+    int r, n;
     
     if (lock == -1) {
         do {
@@ -45,15 +51,16 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
         } while (lock == -1);
     }
 
-    while (n > 0) {
+    while (nbytes > 0) {
+        n = (nbytes > MAX_CHUNK) ? MAX_CHUNK : (int)nbytes;
         do {
-            r = read(lock, random_array+count, n);
+            r = read(lock, random_array, n);
             if (r == -1) {
                 delay(0xFFFF);
             }
         } while (r == -1);
-        count += r;
-        n -= r;
+        random_array += r;
+        nbytes -= r;
     }
 #endif
 
-- 
2.43.0


From 26012ef09365c06c8a254f42b3f9edc8358fbded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:29 +0000
Subject: [PATCH 6/6] fix: Python decode must round ties up as the
 specification and the C code do

Python's round() rounds halves to even, so matrix elements exactly between two
codewords were decoded differently from the specification.
---
 python3/frodokem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python3/frodokem.py b/python3/frodokem.py
index 873e622..314e514 100644
--- a/python3/frodokem.py
+++ b/python3/frodokem.py
@@ -321,7 +321,8 @@ class FrodoKEM(object):
             # 2. for j = 0; j < nbar; j += 1
             for j in range(self.nbar):
                 # 3. tmp = dc(K[i][j]) = round(K[i][j] * 2^B / q) mod 2^B
-                tmp = round(K[i][j] * (2 ** self.B) / self.q) % (2 ** self.B)
+                # (ties are rounded up, i.e. round(x) = floor(x + 1/2); Python's round() rounds them to even)
+                tmp = ((2 * K[i][j] * (2 ** self.B) + self.q) // (2 * self.q)) % (2 ** self.B)
                 # 4. tmp' = sum_{l=0}^{B-1} tmp_l * 2^l
                 tmpbits = [0 for l in range(self.B)]
                 for l in range(self.B):
-- 
2.43.0

