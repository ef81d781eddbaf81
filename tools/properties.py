import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
KEM=["src/kem.c","src/util.c","src/noise.c","src/frodo_macrify.c","src/frodo_macrify_reference.c","src/frodo640.c","src/frodo976.c","src/frodo1344.c"]
SHA=["src/sha3/fips202.c","src/sha3/fips202x4.c","src/sha3/keccak4x/KeccakP-1600-times4-SIMD256.c"]
AES=["src/aes/aes.c","src/aes/aes_c.c","src/aes/aes_ni.c"]

p("C01","Key generation computes exactly FrodoKEM.KeyGen",
"For every string of bytes drawn from the random number generator, key generation returns 0 and writes exactly the public key seedA||b and the secret key s||seedA||b||S^T||pkh that the FrodoKEM specification defines for that string, bit for bit. This holds for each parameter set (640, 976, 1344), each way of expanding the public matrix (AES-128, SHAKE-128) and each build flavour (reference, portable fast, AVX2/AES-NI, OpenSSL or standalone AES), so keys made by any build are interchangeable.",
["inputs","configurations"],"all 2^384..2^640 random strings, all 27 supported builds, every byte of pk and sk",
"There are no known-answer files in the repository: the tests only check that a key pair works with the same build's own encapsulation and decapsulation for 100 random keys, so any self-consistent deviation (domain separators, layouts, noise table, hash padding, byte order) passes.",
KEM+SHA+AES,[("crypto_kem_keypair","src/kem.c"),("frodo_mul_add_as_plus_e","src/frodo_macrify.c, src/frodo_macrify_reference.c"),("frodo_sample_n","src/noise.c"),("frodo_pack","src/util.c"),("CDF_TABLE and parameters","src/frodo640.c, src/frodo976.c, src/frodo1344.c")],
["pk and sk buffers at return of crypto_kem_keypair_*"])

p("C02","Encapsulation computes exactly FrodoKEM.Encaps",
"For every public key string of the right length (honestly generated or not) and every random message mu, encapsulation returns 0 and writes exactly the ciphertext c1||c2 and shared secret that the FrodoKEM specification defines, bit for bit, in every supported build. The result depends on the public key and mu only.",
["inputs","configurations"],"all public-key byte strings, all mu, all 27 supported builds, every byte of ct and ss",
"Tests encapsulate only to honestly generated keys and only compare against the same build's decapsulation; no interoperability vectors exist, so a consistent change of both sides, or one that shows only for unusual public keys, is invisible.",
KEM+SHA+AES,[("crypto_kem_enc","src/kem.c"),("frodo_mul_add_sa_plus_e / frodo_mul_add_sb_plus_e","src/frodo_macrify.c, src/frodo_macrify_reference.c"),("frodo_key_encode","src/frodo_macrify.c, src/frodo_macrify_reference.c"),("frodo_pack / frodo_unpack","src/util.c")],
["ct and ss buffers at return of crypto_kem_enc_*"])

p("C03","Decapsulation is exact, with implicit rejection on any ciphertext difference",
"For every secret-key string and every ciphertext string of the right length, decapsulation returns 0 and the shared secret is the specification's value: derived from the re-derived key k' if and only if every single bit of the ciphertext equals the re-encryption of the decoded message, and otherwise derived from the secret rejection value s. No ciphertext bit is ignored by the comparison, by the decoding, or by the final hash, in any supported build.",
["inputs","configurations"],"all ciphertext and secret-key byte strings, all 27 supported builds, every bit of ct",
"Tests decapsulate honest ciphertexts and ones changed in one random word, so a comparison that skips some words or bits, or a wrong value of the rejection key, is hit with low probability or not at all.",
KEM+SHA+AES,[("crypto_kem_dec","src/kem.c"),("ct_verify / ct_select","src/util.c"),("frodo_mul_bs, frodo_sub, frodo_key_decode","src/frodo_macrify.c, src/frodo_macrify_reference.c")],
["ss buffer and return value of crypto_kem_dec_*"])

p("C04","SHAKE-128, SHAKE-256 and four-way SHAKE-128 are FIPS 202",
"The hash functions produce, for every message, message length and output length, exactly the FIPS 202 SHAKE-128 or SHAKE-256 output. The four-way vectorised SHAKE-128 produces in each of its four lanes exactly what the scalar function produces for that lane's input.",
["inputs","configurations"],"all messages; all message and output lengths around and across the block boundaries and all lengths the KEM uses; both permutation implementations",
"No test calls the hash functions at all; a wrong round constant, rotation, padding byte or block-boundary case stays consistent between encapsulation and decapsulation and passes every test.",
SHA,[("keccak_absorb / keccak_squeezeblocks / KeccakF1600_StatePermute","src/sha3/fips202.c"),("shake128_4x","src/sha3/fips202x4.c"),("KeccakP1600times4_PermuteAll_24rounds","src/sha3/keccak4x/KeccakP-1600-times4-SIMD256.c")],
["output buffers of shake128, shake256, shake128_4x and the absorb/squeeze functions"])

p("C05","Standalone AES is FIPS 197 for every key and block",
"The standalone AES code, portable or AES-NI, AES-128 or AES-256, expands every key and encrypts every sequence of 16-byte blocks (in place or not) to exactly the FIPS 197 ECB result. It therefore agrees with the OpenSSL-based builds.",
["inputs","configurations"],"all keys, all plaintext blocks, any number of blocks, in-place and separate buffers, portable and AES-NI code",
"No test runs the AES code against vectors, AES-256 is never exercised, and builds are never compared with each other; a wrong table entry or round constant is invisible.",
AES,[("AES128_load_schedule / AES128_ECB_enc_sch / AES256_*","src/aes/aes.c"),("portable cipher","src/aes/aes_c.c"),("AES-NI cipher","src/aes/aes_ni.c")],
["ciphertext buffers of AES128_ECB_enc_sch and AES256_ECB_enc_sch"])

p("C06","Noise samples follow the specified distribution for every 16-bit input",
"Turning pseudo-random words into noise maps every one of the 65,536 possible input words to the value the specification's inversion sampling gives for that parameter set: the magnitude is the number of table entries below the upper 15 bits, the sign is the lowest bit. It does so independently for every position of a vector of any length, and touches nothing else.",
["inputs","configurations"],"all 2^16 input words, all three parameter sets, every vector position",
"Nothing in the tests observes noise values; a table entry off by one or a boundary comparison with the wrong strictness changes the distribution (and interoperability) without any decapsulation failure.",
["src/noise.c","src/frodo640.c","src/frodo976.c","src/frodo1344.c"],[("frodo_sample_n","src/noise.c"),("CDF_TABLE","src/frodo640.c, src/frodo976.c, src/frodo1344.c")],["vector contents after frodo_sample_n"])

p("C07","Bit packing and message coding are exact and lossless",
"Packing stores the low bits of each element most-significant-bit first without gaps, unpacking is its exact inverse, for every element width from 1 to 16 bits and every vector length, never disturbing neighbouring bits. Message encoding places each group of message bits in the top bits of its element and decoding recovers exactly that message whenever the added error e of every element satisfies -q/2^(B+1) <= e < q/2^(B+1), rounding exactly as the specification says for all element values.",
["inputs","configurations"],"all element values, all element widths 1..16, vector lengths incl. partial last bytes, all messages and all 2^16 element values for coding",
"Tests only see the packers inside a full round trip with one width per parameter set, and small random errors; boundary rounding and other widths are never reached.",
["src/util.c","src/frodo_macrify.c","src/frodo_macrify_reference.c"],[("frodo_pack / frodo_unpack","src/util.c"),("frodo_key_encode / frodo_key_decode","src/frodo_macrify.c, src/frodo_macrify_reference.c")],["outputs of the packing and coding functions"])

p("C08","The arithmetic is defined C for every input, so compilers cannot change results",
"In key generation, encapsulation, decapsulation and the hash, cipher, sampling, packing and coding functions under them, no input makes a signed operation overflow its type, a shift amount reach the operand's width, a divisor zero, or a pointer stray from its object (by more than a final stride past an end that is never used to access memory). The results are therefore the same with every compiler and at every optimisation level.",
["inputs","configurations"],"all inputs, all operations of all supported builds",
"The sanitizer runs of the tests see only the values that occur for a few random keys; extreme matrix and noise values (for example both factors of a product near the top of their range) practically never occur there, and an overflow that is harmless with one compiler changes results with another.",
KEM+SHA+AES,[("matrix products","src/frodo_macrify.c, src/frodo_macrify_reference.c"),("frodo_sample_n","src/noise.c"),("frodo_pack / frodo_unpack","src/util.c"),("keccak_absorb / keccak_squeezeblocks","src/sha3/fips202.c")],
["every arithmetic instruction and pointer computation under the three operations"])

p("C09","Control flow and memory addresses never depend on secrets",
"In key generation, encapsulation and decapsulation no branch, loop bound, memory address, division or other variable-time operation depends on secret data: the secret random bytes, the secret key's s and S, the message, the noise, or anything computed from them, including whether a ciphertext is accepted. This holds both for the code as written and for optimised code, in every build.",
["inputs","configurations"],"all secret values, all 27 builds, unoptimised and optimised intermediate code",
"Timing equality over all secrets is not observable by functional tests; the valgrind runs in the suite follow only the executed paths for random inputs, never mark the re-derived values of rejected ciphertexts in all builds and accept table lookups hidden behind declassified data.",
KEM+["src/sha3/fips202.c","src/sha3/fips202x4.c"],[("branch-free ct_verify / ct_select","src/util.c"),("branch-free frodo_sample_n","src/noise.c"),("fixed loop bounds","src/kem.c, src/frodo_macrify.c")],["every branch, address and division in the compiled operations"])

p("C10","Working copies of secrets are erased before returning, at any optimisation",
"When key generation, encapsulation or decapsulation returns, none of the working buffers those operations own still contains the random secret seeds, the message, the noise or secret matrices, the decoded/recovered matrix, the derived key material or the value selected for the final hash. The erasure is not removable by an optimising compiler, including link-time optimisation.",
["inputs","configurations"],"all inputs, all builds, unoptimised and whole-program-optimised code, every byte of every working buffer of the operations",
"Stack contents after return are not observable by the tests, and whether a compiler deletes a clearing store depends on flags the tests do not vary.",
["src/kem.c","src/util.c"],[("clear_bytes (volatile stores)","src/util.c"),("cleanup sections","src/kem.c")],["stack buffers of the three operations at return"])

p("C11","Random-number failures are never silent",
"If the random source reports failure, key generation and encapsulation return a non-zero status and never report success with keys or ciphertexts made from unfilled buffers. The random source itself reports success only after it has filled every one of the requested bytes with bytes obtained from the operating system's generator, for every requested length and every pattern of short, interrupted or failed reads; all random bytes an operation uses come from it.",
["inputs","fault_sequences"],"all request lengths, all sequences of open/read results, failure at each request of each operation, Unix and Windows code",
"The tests never make the random source fail or return short reads, and only request a few dozen bytes.",
["src/kem.c","src/random/random.c"],[("randombytes and its callers","src/random/random.c, src/kem.c")],["return values of crypto_kem_keypair/enc, buffer passed to randombytes"])

p("C12","Only documented buffers are touched, within their documented sizes",
"For every input, key generation, encapsulation and decapsulation read and write only inside the documented extents of the caller's buffers, fill the output buffers completely, and never modify an input buffer. Internally no access leaves its object, uses memory after its lifetime, or writes read-only data, in any build; the packing, hashing and AES functions respect the lengths passed to them in the same way.",
["inputs","configurations"],"all inputs, all 27 builds, every memory access of the operations and of the helper functions for a grid of lengths",
"The sanitizer runs see intra-object overflow between adjacent sub-buffers and writes through casts of const pointers as normal, and only for executed inputs and lengths.",
KEM+SHA+AES,[("buffer layout pointers","src/kem.c"),("length-driven loops","src/util.c, src/sha3/fips202.c, src/sha3/fips202x4.c, src/aes/aes.c")],["every load and store"])

p("C13","Caller buffers may have any alignment",
"The three operations work for byte buffers at any address: no access through a caller's key, ciphertext or shared-secret pointer assumes more than byte alignment, and results do not depend on the address.",
["inputs","configurations"],"all buffer addresses, all 27 builds",
"The tests pass static or malloc'ed arrays, which are always well aligned, and x86 hardware hides scalar misalignment while vectorised code may fault.",
["src/kem.c","src/frodo_macrify.c","src/aes/aes_ni.c"],[("byte-wise access to caller buffers","src/kem.c, src/util.c"),("unaligned vector loads","src/aes/aes_ni.c")],["every load and store whose address derives from a caller's pointer"])

p("C14","Operations share no mutable state and are safe to run concurrently",
"Concurrent or interleaved calls on separate buffers behave like isolated calls: no operation, nor any hash, cipher or helper function under it, reads or writes mutable process-wide state, the cached handle of the operating system's random device being the only exception. Results depend only on the arguments and the random bytes, never on earlier calls.",
["schedules","histories"],"all interleavings of calls from any number of threads, all call histories",
"The tests are single threaded and each binary runs one operation at a time.",
["src/aes/aes_c.c","src/random/random.c","src/kem.c","src/sha3/fips202.c","src/noise.c"],[("automatic storage only","all of src"),("lock: cached device handle","src/random/random.c")],["stores to objects with static storage duration"],
[("state pointer of the portable AES","must be private to a call","src/aes/aes_c.c"),("lock","random device handle","src/random/random.c")])

p("C15","Results never depend on uninitialised memory",
"Every byte of output, every return value, every branch and every hashed or encrypted byte is determined by the arguments and the random bytes alone; no uninitialised or leftover memory influences them in any build. Running an operation twice with the same arguments and random bytes gives the same result.",
["inputs","histories","configurations"],"all inputs, all builds, any previous stack contents",
"The tests cannot vary leftover stack contents; valgrind runs cover only executed inputs and treat the whole randomness as undefined already, masking real uninitialised reads.",
KEM+SHA+AES,[("initialisation of work buffers before use","src/kem.c, src/frodo_macrify.c, src/sha3/fips202.c")],["outputs, branches and hash/cipher inputs"])

p("C16","OpenSSL failures are fatal and cipher contexts are balanced",
"In the OpenSSL builds no result of a failed cipher-context creation, initialisation or encryption is ever used: any such failure ends the operation without it reporting success. On success every context is released exactly once, is not used afterwards, and is used only after initialisation with an AES-128-ECB cipher and the public seed.",
["fault_sequences","configurations"],"failure of each OpenSSL call of each operation at each occurrence, all three parameter sets, all flavours",
"OpenSSL never fails in the tests, and a leaked context has no functional effect.",
["src/frodo_macrify.c","src/frodo_macrify_reference.c","src/aes/aes.c"],[("EVP_* calls and handleErrors","src/frodo_macrify.c, src/frodo_macrify_reference.c"),("AES128_free_schedule","src/aes/aes.c")],["calls to EVP_CIPHER_CTX_new/EncryptInit_ex/EncryptUpdate/CIPHER_CTX_free"])

p("C17","The library has no side effects beyond its results",
"The operations interact with the outside world only by opening and reading the operating system's random generator and, in OpenSSL builds, by calling the cipher: they write to no file, terminal, network or environment, start no process, read no clock, do not exit on their own except on an OpenSSL failure, and leave no allocated memory behind. No secret can leave except through the documented outputs.",
["inputs","configurations"],"all inputs, all builds, every external function reachable from the operations",
"Functional tests do not observe file, terminal or network output and would pass with debugging output of secrets on rare paths.",
["src/kem.c","src/random/random.c","src/aes/aes.c","src/sha3/fips202.c"],[("absence of I/O calls","all of src"),("open of /dev/urandom read-only","src/random/random.c")],["external calls reachable from crypto_kem_*"])

p("C18","Published sizes equal what the operations use, in C and Python",
"For each parameter set the published sizes of public key, secret key, ciphertext and shared secret equal the values in the FrodoKEM specification and equal the extents the operations actually read and write, and the noise tables, modulus, dimensions and seed lengths agree between the C library, its headers and the Python reference. The public operations carry a distinct name for each parameter set.",
["configurations"],"all parameter sets, C headers, C code, Python code",
"Each test binary uses one header and over-allocates nothing, but never compares header constants with the specification or the Python model.",
["src/api_frodo640.h","src/api_frodo976.h","src/api_frodo1344.h","src/frodo640.c","src/frodo976.c","src/frodo1344.c","python3/frodokem.py"],[("CRYPTO_*BYTES macros","src/api_frodo*.h"),("PARAMS_* macros and CDF_TABLE","src/frodo*.c"),("setParamsFrodo*","python3/frodokem.py")],["macro values and table contents"])

p("C19","The Python reference computes the same functions",
"The Python implementation's key generation, encapsulation and decapsulation compute, for all random strings, keys and ciphertexts and for each of its six variants, exactly the specification's functions, and hence exactly what the C library computes: including rounding ties when decoding, and implicit rejection.",
["inputs","configurations"],"all random strings, public keys, secret keys and ciphertexts; six variants",
"The only Python test is one self-consistent round trip per variant with fixed randomness whose output is not compared with anything.",
["python3/frodokem.py"],[("kem_keygen, kem_encaps, kem_decaps and helpers","python3/frodokem.py")],["return values of the three operations"])

p("C20","Results are independent of the machine's byte order",
"On a big-endian machine the portable and reference builds produce exactly the same keys, ciphertexts and shared secrets as on a little-endian machine for the same inputs and random bytes.",
["inputs","configurations"],"all inputs, big-endian hosts, reference and portable fast builds, both ways of expanding the matrix",
"The tests run on little-endian x86 only, where every byte-order conversion is the identity, so a missing conversion is invisible.",
["src/config.h","src/kem.c","src/frodo_macrify.c","src/frodo_macrify_reference.c","src/sha3/fips202.c"],[("LE_TO_UINT16 / UINT16_TO_LE","src/config.h and uses"),("byte-wise load64/store64","src/sha3/fips202.c")],["output buffers of the three operations for a big-endian target"])

p("C21","Honest decapsulation fails only with negligible probability",
"For an honestly generated key pair and ciphertext the decapsulated secret equals the encapsulated one except with probability at most 2^-138 (640), 2^-199 (976) and 2^-252 (1344) over the randomness (the hash outputs that become noise counted as uniformly random).",
["inputs"],"all honest executions",
"The failure probability is far below anything sampling can observe.",
["src/kem.c","src/noise.c"],[("parameter choice, noise distribution","src/frodo*.c")],["shared secrets of both sides"])

p("C22","Ciphertexts reveal nothing about the shared secret to active attackers",
"The key encapsulation mechanism is IND-CCA secure: no efficient adversary with access to decapsulation distinguishes the shared secret from random.",
["inputs","programs"],"all efficient adversaries",
"It is a computational-hardness statement.",
["src/kem.c"],[("Fujisaki-Okamoto transform","src/kem.c")],["shared secrets"])
p("C23","Results are the same on every supported processor and data model",
"Built for 32-bit x86, 32-bit or 64-bit ARM, or 64-bit Windows, the reference and portable builds (and on Windows the AVX2 build) produce exactly the same keys, ciphertexts and shared secrets as the x86-64 Unix builds for the same inputs and random bytes: nothing depends on the width of long, size_t or pointers, on whether plain char is signed, or on the compiler-specific branches of the sources.",
["inputs","configurations"],"all inputs; 32-bit x86, 32-bit and 64-bit ARM, 64-bit Windows",
"The tests are built and run for 64-bit x86 Unix only, where long and pointers have 64 bits and plain char is signed.",
["src/config.h","src/kem.c","src/util.c","src/noise.c","src/frodo_macrify.c","src/frodo_macrify_reference.c","src/sha3/fips202.c","src/aes/aes_c.c"],[("TARGET and OS_TARGET selections","src/config.h"),("64-bit lanes and rotations","src/sha3/fips202.c"),("mask arithmetic","src/util.c")],["output buffers of the three operations for the other targets"])
p("C24","Every operation terminates and fits an ordinary stack",
"For every input (and a random source that delivers) key generation, encapsulation and decapsulation end after a bounded number of steps: no loop or recursion waits for a particular value. The fast and portable-fast builds generate the public matrix on the fly and need at most 512 KiB of stack for any parameter set, so they run on the default stack of a thread on every supported platform; the reference build, which holds the whole matrix, needs at most 4 MiB.",
["inputs","configurations"],"all inputs; all parameter sets and build flavours",
"Tests see that sampled inputs finish, on the large default stack of the main thread of one machine.",
["src/kem.c","src/frodo_macrify.c","src/frodo_macrify_reference.c","src/util.c","src/noise.c","src/sha3/fips202.c"],[("local arrays of the three operations","src/kem.c"),("row-wise generation of A","src/frodo_macrify.c"),("full matrix","src/frodo_macrify_reference.c")],["return of the operation; stack consumption"])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
