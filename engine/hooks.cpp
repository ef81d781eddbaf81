// Models of the functions whose internals are decided elsewhere (hash, cipher, random source, C library, OpenSSL).
#include "spec.hpp"

static bool constArg(Interp &I, const V &v, u64 &o, u32 loc, const char *what) { bool ok; o = I.lenArg(v, loc, ok, what); return ok; }
static void checkInit(Interp &I, const Cell *c, u64 n, u32 loc, const char *what) {
    for (u64 i = 0; i < n; i++) if (byteTaint(c[i]) & T_UNINIT) { I.report("uninit", std::string(what) + " depends on uninitialised memory", loc); return; }
}
static Hook shakeHook(int rate) {
    return [rate](Interp &I, Call &c) -> int {
        u64 ol, il; if (c.nargs != 4) return -1;
        if (!constArg(I, c.args[1], ol, c.loc, "hash output") || !constArg(I, c.args[3], il, c.loc, "hash input")) return RUN_STUCK;
        if (ol > (1u << 28) || il > (1u << 28)) { I.report("oob", "hash length out of any buffer", c.loc); return RUN_STUCK; }
        Bytes in(il); I.readBytes(c.args[2], il, in.data(), 1, c.loc, "read (hash input)"); checkInit(I, in.data(), il, c.loc, "hash input");
        Bytes o = spongeSpec(rate, 0x1f, in, ol);
        I.writeBytes(c.args[0], ol, o.data(), 1, c.loc, false, "write (hash output)");
        return RUN_OK; };
}
static int shake4Hook(Interp &I, Call &c) {
    u64 ol, il; if (c.nargs != 10) return -1;
    if (!constArg(I, c.args[4], ol, c.loc, "hash output") || !constArg(I, c.args[9], il, c.loc, "hash input")) return RUN_STUCK;
    if (ol > (1u << 28) || il > (1u << 28)) { I.report("oob", "hash length out of any buffer", c.loc); return RUN_STUCK; }
    for (int k = 0; k < 4; k++) {
        Bytes in(il); I.readBytes(c.args[5 + k], il, in.data(), 1, c.loc, "read (hash input)"); checkInit(I, in.data(), il, c.loc, "hash input");
        Bytes o = spongeSpec(168, 0x1f, in, ol); I.writeBytes(c.args[k], ol, o.data(), 1, c.loc, false, "write (hash output)");
    }
    return RUN_OK;
}
static int permHook(Interp &I, Call &c) {
    if (c.nargs != 1) return -1;
    Cell st[200]; if (!I.readBytes(c.args[0], 200, st, 1, c.loc, "read (Keccak state)")) return RUN_STUCK;
    Cell le[200], out[200];
    if (I.m.be) for (int i = 0; i < 200; i++) le[i] = st[(i & ~7) + 7 - (i & 7)]; else memcpy(le, st, sizeof le);
    checkInit(I, le, 200, c.loc, "hash state");
    u32 s = permStream(le);
    for (int i = 0; i < 200; i++) out[I.m.be ? (i & ~7) + 7 - (i & 7) : i] = Cell{s, (u32)i};
    I.writeBytes(c.args[0], 200, out, 1, c.loc, false, "write (Keccak state)"); return RUN_OK;
}
static int perm4Hook(Interp &I, Call &c) {
    if (c.nargs != 1) return -1;
    Cell st[800], out[800]; if (!I.readBytes(c.args[0], 800, st, 1, c.loc, "read (Keccak state)")) return RUN_STUCK;
    checkInit(I, st, 800, c.loc, "hash state");
    for (int k = 0; k < 4; k++) { Cell le[200]; for (int i = 0; i < 25; i++) for (int b = 0; b < 8; b++) le[8 * i + b] = st[32 * i + 8 * k + b]; u32 s = permStream(le); for (int i = 0; i < 25; i++) for (int b = 0; b < 8; b++) out[32 * i + 8 * k + b] = Cell{s, (u32)(8 * i + b)}; }
    I.writeBytes(c.args[0], 800, out, 1, c.loc, false, "write (Keccak state)"); return RUN_OK;
}
static int aesLoadHook(Interp &I, Call &c) {
    if (c.nargs != 2) return -1;
    Cell k[16]; I.readBytes(c.args[0], 16, k, 1, c.loc, "read (AES key)"); checkInit(I, k, 16, c.loc, "AES key");
    u32 s = aesSchedStream(k); Bytes o = streamBytes(s, 0, 176); I.writeBytes(c.args[1], 176, o.data(), 1, c.loc, false, "write (AES schedule)"); return RUN_OK;
}
static bool aesBlocks(Interp &I, const Cell *key, const V &in, const V &out, u64 len, u32 loc) {
    Bytes b(len), o(len); I.readBytes(in, len, b.data(), 1, loc, "read (AES input)"); checkInit(I, b.data(), len, loc, "AES input");
    for (u64 i = 0; i + 16 <= len; i += 16) { u32 s = aesStream(key, &b[i]); for (u32 k = 0; k < 16; k++) o[i + k] = Cell{s, k}; }
    return I.writeBytes(out, len, o.data(), 1, loc, false, "write (AES output)");
}
static int aesEnc(Interp &I, const V &pt, u64 len, const V &sch, const V &ct, u32 loc) {
    Cell s[176], key[16]; I.readBytes(sch, 176, s, 1, loc, "read (AES schedule)"); checkInit(I, s, 176, loc, "AES schedule");
    if (!schedKey(s, key)) {      // not a schedule made by key expansion: some other function of these bytes
        u128 h = 777; u8 ta = 0; for (auto &c : s) { h = mix(h * 3 + byteId(c)); ta |= byteTaint(c); }
        u32 st = newStream(h, 16, ta); for (u32 i = 0; i < 16; i++) key[i] = Cell{st, i};
    }
    aesBlocks(I, key, pt, ct, len, loc); return RUN_OK;
}
static int evpFail(Interp &I, const char *what, u64 okv, u64 badv, V &ret, unsigned w, u32 loc) {
    I.evpLocs.push_back(loc);
    bool bad = I.evpFailAt == I.evpEvents++;
    if (bad) { I.evpFailed = true; I.evpFailWhat = what; ret = vconst(w, badv); return 1; }
    ret = vconst(w, okv); return 0;
}
void Interp::stdHooks() {
    hooks["shake128"] = shakeHook(168); hooks["shake256"] = shakeHook(136); hooks["shake128_4x"] = shake4Hook;
    hooks["KeccakF1600_StatePermute"] = permHook; hooks["KeccakP1600times4_PermuteAll_24rounds"] = perm4Hook;
    hooks["AES128_load_schedule"] = aesLoadHook; hooks["aes128_load_schedule_c"] = aesLoadHook; hooks["aes128_load_schedule_ni"] = aesLoadHook;
    hooks["AES128_ECB_enc_sch"] = [](Interp &I, Call &c) -> int { u64 n; if (c.nargs != 4) return -1; if (!constArg(I, c.args[1], n, c.loc, "AES input")) return RUN_STUCK; if (n % 16 || n > (1u << 28)) { I.report("condabort", "AES input length is not a multiple of the block size", c.loc); return RUN_ABORT; } return aesEnc(I, c.args[0], n, c.args[2], c.args[3], c.loc); };
    Hook one = [](Interp &I, Call &c) -> int { if (c.nargs != 3) return -1; return aesEnc(I, c.args[0], 16, c.args[1], c.args[2], c.loc); };
    hooks["aes128_enc_c"] = one; hooks["aes128_enc_ni"] = one;
    hooks["randombytes"] = [](Interp &I, Call &c) -> int {
        u64 n; if (c.nargs != 2) return -1; if (!constArg(I, c.args[1], n, c.loc, "random draw")) return RUN_STUCK;
        if (I.randFailAt == I.randCalls++) { I.randFailed = true; c.ret = vconst(32, I.randFailRc); u32 r; i64 o; I.resolve(c.args[0], n, r, o, c.loc, true, "write (random bytes)"); return RUN_OK; }
        I.randDraws.push_back({n, c.loc});
        if (I.randPos + n > I.randMax) I.report("randexcess", "more random bytes drawn than the specification uses", c.loc);
        Bytes b = streamBytes(I.randStream, (u32)I.randPos, (u32)n); I.randPos += n;
        I.writeBytes(c.args[0], n, b.data(), 1, c.loc, false, "write (random bytes)"); c.ret = vconst(32, 0); return RUN_OK; };
    auto copy = [](bool move) -> Hook { return [move](Interp &I, Call &c) -> int {
        u64 n; if (!constArg(I, c.args[2], n, c.loc, "a memory copy")) return RUN_STUCK; if (n > (1u << 28)) { I.report("oob", "memory copy of " + std::to_string(n) + " bytes", c.loc); return RUN_STUCK; }
        Bytes b(n); I.readBytes(c.args[1], n, b.data(), 1, c.loc, "read"); I.writeBytes(c.args[0], n, b.data(), 1, c.loc, false, "write"); c.ret = c.args[0]; (void)move; return RUN_OK; }; };
    hooks["memcpy"] = copy(false); hooks["memmove"] = copy(true); hooks["__memcpy_chk"] = copy(false);
    auto fill = [](bool vol, bool set) -> Hook { return [vol, set](Interp &I, Call &c) -> int {
        u64 n; if (!constArg(I, c.args[set ? 2 : 1], n, c.loc, "a memory fill")) return RUN_STUCK; if (n > (1u << 28)) { I.report("oob", "memory fill of " + std::to_string(n) + " bytes", c.loc); return RUN_STUCK; }
        Cell b{CELL_CONST, 0}; if (set) vToCells(vtrunc(c.args[1], 8), &b, 1, I.m.be);
        Bytes v(n, b); I.writeBytes(c.args[0], n, v.data(), 1, c.loc, vol || (c.ci && c.ci->fn < 0), "write"); c.ret = c.args[0]; return RUN_OK; }; };
    hooks["memset"] = fill(false, true); hooks["explicit_bzero"] = fill(true, false); hooks["bzero"] = fill(false, false); hooks["OPENSSL_cleanse"] = fill(true, false); hooks["memset_explicit"] = fill(true, true);
    hooks["memcmp"] = [](Interp &I, Call &c) -> int {
        u64 n; if (!constArg(I, c.args[2], n, c.loc, "a comparison")) return RUN_STUCK; if (n > (1u << 24)) return RUN_STUCK; Bytes a(n), b(n); I.readBytes(c.args[0], n, a.data(), 1, c.loc, "read"); I.readBytes(c.args[1], n, b.data(), 1, c.loc, "read");
        u8 ta = 0; Bit eq = bconst(1); for (u64 i = 0; i < n; i++) { ta |= byteTaint(a[i]) | byteTaint(b[i]); Bit x[8], y[8]; bitsOf(cellsToV(&a[i], 1, false), x); bitsOf(cellsToV(&b[i], 1, false), y); for (int k = 0; k < 8; k++) eq = band(eq, bnot(bxor(x[k], y[k]))); }
        if (I.ctCheck && (ta & T_SECRET)) I.report("ct", "memcmp (variable time) on secret data", c.loc);
        Bit o[32]; for (auto &x : o) x = bconst(0); o[0] = bnot(eq); c.ret = mkBits(o, 32); return RUN_OK; };
    hooks["malloc"] = [](Interp &I, Call &c) -> int { u64 n; if (!constArg(I, c.args[0], n, c.loc, "an allocation")) return RUN_STUCK; c.ret = vptr(I.newRegion("heap@" + I.where(c.loc), n, 16, R_HEAP, 0), 0); return RUN_OK; };
    hooks["calloc"] = [](Interp &I, Call &c) -> int { u64 n, k; if (!constArg(I, c.args[0], n, c.loc, "an allocation") || !constArg(I, c.args[1], k, c.loc, "an allocation")) return RUN_STUCK; u32 r = I.newRegion("heap@" + I.where(c.loc), n * k, 16, R_HEAP, 0); for (u64 i = 0; i < n * k; i++) I.regs[r].c[i] = Cell{0, 0}; c.ret = vptr(r, 0); return RUN_OK; };
    hooks["aligned_alloc"] = [](Interp &I, Call &c) -> int { u64 a, n; if (!constArg(I, c.args[0], a, c.loc, "an allocation") || !constArg(I, c.args[1], n, c.loc, "an allocation")) return RUN_STUCK; c.ret = vptr(I.newRegion("heap@" + I.where(c.loc), n, (u32)a, R_HEAP, 0), 0); return RUN_OK; };
    hooks["free"] = [](Interp &I, Call &c) -> int { const V &p = c.args[0]; if (p.k == K_CONST && p.b == 0) return RUN_OK; if (p.k != K_PTR || I.regs[p.a].kind != R_HEAP || p.b) { I.report("lifetime", "free of something that was not allocated", c.loc); return RUN_STUCK; } if (!I.regs[p.a].alive) { I.report("lifetime", "double free", c.loc); return RUN_OK; } I.scanErase(p.a, I.fnStack.empty() ? "?" : I.fnStack.back(), "when it is freed"); I.killRegion(p.a); return RUN_OK; };
    Hook ab = [](Interp &I, Call &c) -> int { I.report("abort", "the process is ended here", c.loc); return RUN_ABORT; };
    for (const char *n : {"abort", "exit", "_exit", "__assert_fail", "__assert_rtn", "_assert", "__stack_chk_fail", "quick_exit", "_Exit"}) hooks[n] = ab;
    Hook nop = [](Interp &, Call &) -> int { return RUN_OK; };
    hooks["ERR_print_errors_fp"] = nop;
    // OpenSSL
    hooks["EVP_CIPHER_CTX_new"] = [](Interp &I, Call &c) -> int {
        if (evpFail(I, "EVP_CIPHER_CTX_new", 1, 0, c.ret, 64, c.loc)) return RUN_OK;
        u32 r = I.newRegion("EVP_CIPHER_CTX@" + I.where(c.loc), 0, 16, R_HANDLE, 0); EvpCtx e; e.state = 0; e.region = r; e.cipherSet = false; I.regs[r].aux = (u32)I.evp.size() + 1; I.evp.push_back(e); I.evpLive++; c.ret = vptr(r, 0); return RUN_OK; };
    auto ctxOf = [](Interp &I, const V &p, u32 loc, const char *what) -> EvpCtx * {
        if (p.k != K_PTR || I.regs[p.a].kind != R_HANDLE || !I.regs[p.a].aux) { I.report("evp", std::string(what) + " on something that is not a live cipher context", loc); return nullptr; }
        EvpCtx *e = &I.evp[I.regs[p.a].aux - 1]; if (e->state == 2) { I.report("evp", std::string(what) + " on a cipher context that was already released", loc); return nullptr; } return e; };
    for (auto pr : std::vector<std::pair<const char *, int>>{{"EVP_aes_128_ecb", 1}, {"EVP_aes_256_ecb", 2}, {"EVP_aes_128_cbc", 3}, {"EVP_aes_128_ctr", 4}, {"EVP_aes_192_ecb", 5}, {"EVP_aes_128_ofb", 6}, {"EVP_aes_128_cfb128", 7}}) { int k = pr.second; hooks[pr.first] = [k](Interp &I, Call &c) -> int { u32 r = I.newRegion("EVP_CIPHER", 0, 16, R_HANDLE, 0); I.regs[r].aux2 = (u64)k; c.ret = vptr(r, 0); return RUN_OK; }; }
    Hook init = [ctxOf](Interp &I, Call &c) -> int {
        EvpCtx *e = ctxOf(I, c.args[0], c.loc, "EVP_EncryptInit_ex"); if (!e) return RUN_STUCK;
        if (evpFail(I, "EVP_EncryptInit_ex", 1, I.evpFailRc, c.ret, 32, c.loc)) return RUN_OK;
        const V &ci = c.args[1]; if (ci.k == K_PTR && I.regs[ci.a].kind == R_HANDLE) { if (I.regs[ci.a].aux2 != 1) { I.report("evp", "cipher context initialised with a cipher other than AES-128-ECB", c.loc); return RUN_STUCK; } e->cipherSet = true; }
        int ki = c.nargs == 5 ? 3 : 2; const V &k = c.args[ki];
        if (!(k.k == K_CONST && k.b == 0)) { I.readBytes(k, 16, e->key, 1, c.loc, "read (AES key)"); checkInit(I, e->key, 16, c.loc, "AES key"); for (auto &x : e->key) if (byteTaint(x) & T_SECRET) { I.report("evp", "cipher key is not the public seed", c.loc); break; } if (e->cipherSet) e->state = 1; }
        return RUN_OK; };
    hooks["EVP_EncryptInit_ex"] = init; hooks["EVP_EncryptInit"] = init;
    Hook upd = [ctxOf](Interp &I, Call &c) -> int {
        EvpCtx *e = ctxOf(I, c.args[0], c.loc, "EVP_EncryptUpdate"); if (!e) return RUN_STUCK;
        if (e->state != 1 && I.evpFailed) { c.ret = vconst(32, 0); return RUN_OK; }      // OpenSSL refuses too
        if (e->state != 1) { I.report("evp", "EVP_EncryptUpdate on a cipher context that was not initialised with a cipher and key", c.loc); return RUN_STUCK; }
        if (evpFail(I, "EVP_EncryptUpdate", 1, I.evpFailRc, c.ret, 32, c.loc)) return RUN_OK;
        u64 n; if (!constArg(I, c.args[4], n, c.loc, "cipher input")) return RUN_STUCK; i64 sn = sx(n, 32);
        if (sn < 0 || sn % 16 || sn > (1 << 28)) { I.report("evp", "EVP_EncryptUpdate with a length that is not a multiple of the block size", c.loc); return RUN_STUCK; }
        Cell l[4]; vToCells(vconst(32, n), l, 4, I.m.be); I.writeBytes(c.args[2], 4, l, 4, c.loc, false, "write (output length)");
        Cell key[16]; memcpy(key, e->key, sizeof key); aesBlocks(I, key, c.args[3], c.args[1], (u64)sn, c.loc); return RUN_OK; };
    hooks["EVP_EncryptUpdate"] = upd;
    hooks["EVP_CIPHER_CTX_set_padding"] = [ctxOf](Interp &I, Call &c) -> int { if (!ctxOf(I, c.args[0], c.loc, "EVP_CIPHER_CTX_set_padding")) return RUN_STUCK; c.ret = vconst(32, 1); return RUN_OK; };
    hooks["EVP_CIPHER_CTX_free"] = [](Interp &I, Call &c) -> int {
        const V &p = c.args[0]; if (p.k == K_CONST && p.b == 0) return RUN_OK;
        if (p.k != K_PTR || I.regs[p.a].kind != R_HANDLE || !I.regs[p.a].aux) { I.report("evp", "EVP_CIPHER_CTX_free of something that is not a cipher context", c.loc); return RUN_STUCK; }
        EvpCtx &e = I.evp[I.regs[p.a].aux - 1]; if (e.state == 2) I.report("evp", "cipher context released twice", c.loc); else { e.state = 2; I.evpLive--; } return RUN_OK; };
    for (size_t i = 0; i < m.funcs.size(); i++) { auto it = hooks.find(m.funcs[i].name); if (it != hooks.end()) hookOf[i] = &it->second; }
}
