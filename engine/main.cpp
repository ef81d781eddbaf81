// Tasks of the analyser. Each prints one JSON object per line.
#include "spec.hpp"
#include <chrono>
#include <cmath>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
extern std::function<void(std::function<void(u32)>)> extraRoots;
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) r += ' '; else r += c; } return r; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string jfind(const Interp &I) {
    std::string s = "["; bool f = true;
    for (auto &x : I.findings) { if (!f) s += ","; f = false; s += "{\"cls\":\"" + x.cls + "\",\"msg\":\"" + esc(x.msg) + "\",\"where\":\"" + esc(x.where) + "\",\"func\":\"" + esc(x.func) + "\",\"count\":" + std::to_string(x.count) + "}"; }
    return s + "]";
}
static std::string jstats(const Interp &I, double t0) {
    int nf = 0; std::string fl; for (size_t i = 0; i < I.reached.size(); i++) if (I.reached[i]) { nf++; fl += (fl.empty() ? "\"" : ",\"") + esc(I.m.funcs[i].name) + "\""; }
    std::string hk; for (auto &h : I.hooked) hk += (hk.empty() ? "\"" : ",\"") + esc(h) + "\"";
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    return "\"stack\":" + std::to_string(I.stackPeak) + ",\"stackFn\":\"" + esc(I.peakAt) + "\",\"stackAt\":\"" + esc(I.where(I.peakLoc)) + "\",\"steps\":" + std::to_string(I.steps) + ",\"loads\":" + std::to_string(I.nLoads) + ",\"stores\":" + std::to_string(I.nStores) + ",\"branches\":" + std::to_string(I.nBranches) + ",\"arith\":" + std::to_string(I.nArith) + ",\"calls\":" + std::to_string(I.nCalls) + ",\"forks\":" + std::to_string(I.nForks) + ",\"nfuncs\":" + std::to_string(nf) + ",\"funcs\":[" + fl + "],\"models\":[" + hk + "],\"wall\":" + std::to_string(now() - t0) + ",\"rss_mb\":" + std::to_string(ru.ru_maxrss / 1024);
}
static u32 inRegion(Interp &I, const std::string &name, const Bytes &b, u32 align = 1) { u32 r = I.newRegion(name, b.size(), align, R_IN, 0); for (size_t i = 0; i < b.size(); i++) I.regs[r].c[i] = b[i]; I.regs[r].ro = true; return r; }
static u32 outRegion(Interp &I, const std::string &name, u64 n, u32 align = 1) { return I.newRegion(name, n, align, R_OUT, 0); }
// compare a region with the expected bytes; JSON list of mismatches (at most 3) and the count
static std::string cmpRegion(Interp &I, u32 r, const Bytes &want, u64 &bad, u64 off0 = 0) {
    std::string s; int shown = 0;
    for (size_t i = 0; i < want.size(); i++) {
        const Cell &c = I.regs[r].c[off0 + i]; std::string why;
        if (c.id == CELL_UNINIT) why = "never written"; else if (byteId(c) != byteId(want[i])) why = "is " + showCell(c) + ", the specification says " + showCell(want[i]);
        if (why.empty()) continue;
        bad++;
        if (shown < 3) { u32 w = I.regs[r].wr[off0 + i]; s += (shown ? "," : "") + std::string("{\"buf\":\"") + esc(I.regs[r].name) + "\",\"byte\":" + std::to_string(i) + ",\"where\":\"" + esc(w ? I.where(w) : "-") + "\",\"func\":\"" + esc(w ? I.funcOf(w) : "-") + "\",\"msg\":\"" + esc(why) + "\"}"; shown++; }
    }
    return s;
}
static std::string anyWhere(Interp &I, int fn) { return fn >= 0 ? I.m.strs[I.m.funcs[(size_t)fn].file] + ":" + std::to_string(I.m.funcs[(size_t)fn].line) : "-"; }
static const char *RUNN[] = {"returned", "aborted", "stuck", "?"};
static bool exemptErase(const std::string &f) {
    static const char *pre[] = {"frodo_mul_", "shake", "keccak", "Keccak", "aes", "AES", "cshake", "store64", "load64", "frodo_pack", "frodo_unpack"};
    for (auto p : pre) if (f.compare(0, strlen(p), p) == 0) return true;
    return false;
}

struct KemIn { Bytes sk, pk, ct; u32 rnd; };
static KemIn kemInputs(const Params &P) {
    KemIn k; u32 s = newStream(mixt(5001, 1), (u32)P.CB, T_SECRET | T_DATA, 0xffffffffu, "sk.s"), pk = newStream(mixt(5002, 1), (u32)P.pk, T_DATA, 0xffffffffu, "pk"), S = newStream(mixt(5003, 1), (u32)(16 * P.N), T_SECRET | T_DATA, 0xffffffffu, "sk.S"), h = newStream(mixt(5004, 1), (u32)P.CB, T_DATA, 0xffffffffu, "sk.pkh"), ct = newStream(mixt(5005, 1), (u32)P.ct, T_DATA, 0xffffffffu, "ct");
    k.pk = streamBytes(pk, 0, (u32)P.pk); k.ct = streamBytes(ct, 0, (u32)P.ct);
    for (auto &b : {streamBytes(s, 0, (u32)P.CB), k.pk, streamBytes(S, 0, (u32)(16 * P.N)), streamBytes(h, 0, (u32)P.CB)}) k.sk.insert(k.sk.end(), b.begin(), b.end());
    return k;
}
static int kemTask(int argc, char **argv) {
    const Params *pp = paramsFor(atoi(argv[0])); if (!pp || argc < 4) return 2; const Params &P = *pp;
    bool sh = !strcmp(argv[1], "SHAKE"); std::string api = argv[2], mode = "all"; size_t colon = api.find(':'); if (colon != std::string::npos) { mode = api.substr(colon + 1); api = api.substr(0, colon); }
    bool doMain = mode == "all" || mode == "main" || mode == "opt", doRand = mode == "all" || mode == "rand", doEvp = mode == "all" || mode == "evp";   // :rand and :evp leave out the comparison with the specification
    double t0 = now(); KemIn k = kemInputs(P);
    k.rnd = newStream(mixt(5006, 1), 1 << 16, T_SECRET | T_DATA, api == "kp" ? (u32)(2 * P.CB) : 0xffffffffu, "random");
    KemSpec sp(P, sh); u64 randMax = api == "kp" ? (u64)(2 * P.CB + 16) : api == "enc" ? (u64)P.CB : 0;
    if (!doMain) ; else if (api == "kp") sp.keygen(k.rnd); else if (api == "enc") sp.encaps(k.pk, k.rnd); else sp.decaps(k.sk, k.ct);
    extraRoots = [&](std::function<void(u32)> mk) { for (auto *b : {&sp.pk, &sp.sk, &sp.ct, &sp.ss, &k.pk, &k.sk, &k.ct}) for (auto &c : *b) if (c.id >= 2) mk(c.id); };
    printf("{\"kind\":\"spec\",\"n\":%d,\"gen\":\"%s\",\"api\":\"%s\",\"muls\":%llu,\"secretBytes\":%zu,\"wall\":%.2f}\n", P.N, argv[1], api.c_str(), (unsigned long long)sp.muls, sp.secret.size(), now() - t0);
    std::string fname = std::string(api == "kp" ? "crypto_kem_keypair_" : api == "enc" ? "crypto_kem_enc_" : "crypto_kem_dec_") + P.name;
    for (int a = 3; a < argc; a++) {
        Module m; std::string err; if (!loadModule(argv[a], m, err)) { printf("{\"kind\":\"error\",\"bc\":\"%s\",\"msg\":\"%s\"}\n", argv[a], esc(err).c_str()); continue; }
        if (!m.fnByName.count(fname)) { printf("{\"kind\":\"error\",\"bc\":\"%s\",\"msg\":\"entry point %s not found\"}\n", argv[a], fname.c_str()); continue; }
        int fn = m.fnByName[fname]; int randCalls = 0, evpEvents = 0;
        auto run = [&](Interp &I, u32 *out, V &ret) {
            I.stdHooks(); I.randStream = k.rnd; I.randMax = randMax; I.apiName = fname; I.ptrOrder = mode == "opt";
            std::vector<V> args;
            if (api == "kp") { out[0] = outRegion(I, "pk", (u64)P.pk); out[1] = outRegion(I, "sk", (u64)P.sk); args = {vptr(out[0], 0), vptr(out[1], 0)}; }
            else if (api == "enc") { out[0] = outRegion(I, "ct", (u64)P.ct); out[1] = outRegion(I, "ss", (u64)P.ss); args = {vptr(out[0], 0), vptr(out[1], 0), vptr(inRegion(I, "pk", k.pk), 0)}; }
            else { out[0] = outRegion(I, "ss", (u64)P.ss); args = {vptr(out[0], 0), vptr(inRegion(I, "ct", k.ct), 0), vptr(inRegion(I, "sk", k.sk), 0)}; }
            bool found; return I.callByName(fname, args, ret, found);
        };
        std::string head = std::string("\"n\":") + std::to_string(P.N) + ",\"gen\":\"" + argv[1] + "\",\"api\":\"" + api + "\",\"bc\":\"" + esc(argv[a]) + "\",\"entry\":\"" + fname + "\"";
        if (doMain) {
            double t1 = now(); Interp I(m); I.eraseCheck = true; I.trackFlags = mode != "opt"; I.secretSet = &sp.secret; I.eraseExempt = exemptErase;
            u32 out[2]; V ret = vconst(32, 0xdead); int rc = run(I, out, ret); u64 bad = 0, tot = 0; std::string mm;
            std::vector<const Bytes *> want = api == "kp" ? std::vector<const Bytes *>{&sp.pk, &sp.sk} : api == "enc" ? std::vector<const Bytes *>{&sp.ct, &sp.ss} : std::vector<const Bytes *>{&sp.ss};
            for (size_t i = 0; i < want.size(); i++) { if (rc == RUN_OK) { std::string s = cmpRegion(I, out[i], *want[i], bad); if (s.size()) mm += (mm.size() ? "," : "") + s; } tot += want[i]->size(); }
            u64 unin = 0; std::string ub; if (rc == RUN_OK) for (size_t i = 0; i < want.size(); i++) for (u64 b = 0; b < I.regs[out[i]].size; b++) { const Cell &c = I.regs[out[i]].c[b]; if (c.id == CELL_UNINIT || (byteTaint(c) & T_UNINIT)) { if (!unin++) ub = I.regs[out[i]].name + "[" + std::to_string(b) + "] " + (I.regs[out[i]].wr[b] ? I.where(I.regs[out[i]].wr[b]) : "never written"); } }
            randCalls = I.randCalls; evpEvents = I.evpEvents;
            std::string draws; for (auto &d : I.randDraws) draws += (draws.size() ? "," : "") + std::string("[") + std::to_string(d.first) + ",\"" + esc(I.where(d.second)) + "\"]";
            printf("{\"kind\":\"kem\",%s,\"run\":\"%s\",\"ret\":\"%s\",\"retok\":%s,\"where\":\"%s\",\"bytes\":%llu,\"bad\":%llu,\"mismatch\":[%s],\"uninitOut\":%llu,\"uninitAt\":\"%s\",\"randCalls\":%d,\"randBytes\":%llu,\"draws\":[%s],\"evpEvents\":%d,\"evpLive\":%d,\"evpCtx\":%zu,\"findings\":%s,%s}\n", head.c_str(), RUNN[rc], esc(showV(ret)).c_str(), ret.k == K_CONST && ret.b == 0 ? "true" : "false", esc(anyWhere(I, fn)).c_str(), (unsigned long long)tot, (unsigned long long)bad, mm.c_str(), (unsigned long long)unin, esc(ub).c_str(), randCalls, (unsigned long long)I.randPos, draws.c_str(), evpEvents, I.evpLive, I.evp.size(), jfind(I).c_str(), jstats(I, t1).c_str());
            fflush(stdout);
        }
        if (doRand) for (int f = 0; f < 64; f++) {
            double t1 = now(); Interp I(m); I.ctCheck = false; I.randFailAt = f; u32 out[2]; V ret = vconst(32, 0xdead); int rc = run(I, out, ret);
            if (!I.randFailed) { printf("{\"kind\":\"rand\",%s,\"run\":\"%s\",\"where\":\"%s\",\"randCalls\":%d,\"findings\":%s}\n", head.c_str(), RUNN[rc], esc(anyWhere(I, fn)).c_str(), I.randCalls, jfind(I).c_str()); break; }
            bool nz = rc == RUN_ABORT || (rc == RUN_OK && ret.k == K_CONST && ret.b != 0);
            printf("{\"kind\":\"randfail\",%s,\"at\":%d,\"run\":\"%s\",\"ret\":\"%s\",\"ok\":%s,\"where\":\"%s\",\"findings\":%s,%s}\n", head.c_str(), f, RUNN[rc], esc(showV(ret)).c_str(), nz ? "true" : "false", esc(anyWhere(I, fn)).c_str(), jfind(I).c_str(), jstats(I, t1).c_str()); fflush(stdout);
        }
        if (doEvp) {
            double t0e = now(); Interp J(m); J.ctCheck = false; J.evpProbe = true; u32 o2[2]; V rj = vconst(32, 0xdead); int rcj = run(J, o2, rj);
            struct Sc { int at; u64 badv; }; std::vector<Sc> sc; std::string esp;
            for (auto &e : J.probeEscapes) { sc.push_back({e.second.first, e.second.badv}); if (e.second.last != e.second.first) sc.push_back({e.second.last, e.second.badv}); esp += (esp.size() ? "," : "") + std::string("[\"") + esc(J.where(e.first.first)) + "\",\"" + esc(e.first.second) + "\"," + std::to_string(e.second.count) + "]"; }
            std::set<u32> sites(J.evpLocs.begin(), J.evpLocs.end());
            printf("{\"kind\":\"evp\",%s,\"run\":\"%s\",\"where\":\"%s\",\"evpEvents\":%d,\"sites\":%zu,\"probes\":%llu,\"aborted\":%llu,\"escapes\":[%s],\"evpLive\":%d,\"evpCtx\":%zu,\"findings\":%s,%s}\n", head.c_str(), RUNN[rcj], esc(anyWhere(J, fn)).c_str(), J.evpEvents, sites.size(), (unsigned long long)J.probes, (unsigned long long)J.probesAborted, esp.c_str(), J.evpLive, J.evp.size(), jfind(J).c_str(), jstats(J, t0e).c_str()); fflush(stdout);
            // a failure that does not end the operation inside the function that sees it is followed to the return of the operation
            for (auto &x : sc) {
                double t1 = now(); Interp I(m); I.ctCheck = false; I.evpFailAt = x.at; I.evpFailRc = x.badv; u32 out[2]; V ret = vconst(32, 0xdead); int rc = run(I, out, ret);
                bool okk = rc == RUN_ABORT || (rc == RUN_OK && ret.k == K_CONST && ret.b != 0);
                printf("{\"kind\":\"evpfail\",%s,\"at\":%d,\"what\":\"%s\",\"rcode\":%d,\"run\":\"%s\",\"ret\":\"%s\",\"ok\":%s,\"where\":\"%s\",\"findings\":%s,%s}\n", head.c_str(), x.at, I.evpFailWhat.c_str(), (int)x.badv, RUNN[rc], esc(showV(ret)).c_str(), okk ? "true" : "false", esc((size_t)x.at < J.evpLocs.size() ? J.where(J.evpLocs[(size_t)x.at]) : anyWhere(I, fn)).c_str(), jfind(I).c_str(), jstats(I, t1).c_str()); fflush(stdout);
            }
        }
    }
    return 0;
}

// ------------------------------------------------------------ primitives
// integer constants that can decide a path in the functions under fn: compared with, masked with, divided by
static std::set<u64> pathConstants(Module &m, const std::string &root, const std::set<std::string> &stop) {
    std::set<u64> r; std::set<int> seen; std::vector<int> st; if (m.fnByName.count(root)) st.push_back(m.fnByName[root]);
    while (st.size()) {
        int f = st.back(); st.pop_back(); if (!seen.insert(f).second) continue; const Func &F = m.funcs[(size_t)f]; if (F.decl) continue;
        for (auto &i : F.code) {
            if (i.op == B_CALL) { int g = m.calls[i.aux].fn; if (g >= 0 && !stop.count(m.funcs[(size_t)g].name)) st.push_back(g); }
            if (i.op == B_SWITCH) for (auto &c : m.switches[i.aux].cases) r.insert(c.first);
            if (i.op == B_ICMP || i.op == B_BIN) for (int o : {i.a, i.b}) if (o < 0) { const V &c = m.pool[(size_t)~o]; if (c.k == K_CONST) r.insert(c.b); }
        }
    }
    std::set<u64> k; for (u64 c : r) if (c >= 2 && c <= (1u << 20)) k.insert(c);
    return k;
}
static std::vector<u64> pathLengths(Module &m, const std::string &root, const std::set<std::string> &stop, u64 unit, u64 cap) {
    std::set<u64> s; for (u64 c : pathConstants(m, root, stop)) for (u64 b : {c, c * unit}) for (u64 d : {b - 1, b, b + 1}) if (d <= cap) s.insert(d);
    return std::vector<u64>(s.begin(), s.end());
}
struct Prim {
    std::string what, bc; u64 runs = 0, obl = 0, bad = 0, stuck = 0; std::string mm; std::map<std::string, Finding> fnd; u64 steps = 0, loads = 0, stores = 0, branches = 0, arith = 0; std::set<std::string> funcs, models; std::string firstWhere; double t0 = now(); int miss = 0; std::string detail, peakAt, peakFn; u64 peak = 0;
    void absorb(Interp &I) {
        if (I.stackPeak > peak) { peak = I.stackPeak; peakFn = I.peakAt; peakAt = I.where(I.peakLoc); }
        runs++; steps += I.steps; loads += I.nLoads; stores += I.nStores; branches += I.nBranches; arith += I.nArith;
        for (size_t i = 0; i < I.reached.size(); i++) if (I.reached[i]) funcs.insert(I.m.funcs[i].name);
        for (auto &h : I.hooked) models.insert(h);
        for (auto &f : I.findings) { auto k = f.cls + "@" + f.where + f.func; if (!fnd.count(k)) fnd[k] = f; else fnd[k].count += f.count; }
    }
    void addmm(const std::string &s) { if (s.size() && ++miss <= 3) mm += (mm.size() ? "," : "") + s; }
    void fail(const std::string &where, const std::string &msg) { bad++; addmm("{\"buf\":\"-\",\"byte\":0,\"where\":\"" + esc(where) + "\",\"func\":\"-\",\"msg\":\"" + esc(msg) + "\"}"); }
    void print() {
        std::string s = "["; bool f = true; for (auto &kv : fnd) { auto &x = kv.second; if (!f) s += ","; f = false; s += "{\"cls\":\"" + x.cls + "\",\"msg\":\"" + esc(x.msg) + "\",\"where\":\"" + esc(x.where) + "\",\"func\":\"" + esc(x.func) + "\",\"count\":" + std::to_string(x.count) + "}"; } s += "]";
        std::string fl, ml; for (auto &x : funcs) fl += (fl.size() ? ",\"" : "\"") + esc(x) + "\""; for (auto &x : models) ml += (ml.size() ? ",\"" : "\"") + esc(x) + "\"";
        printf("{\"kind\":\"prim\",\"stack\":%llu,\"stackFn\":\"%s\",\"stackAt\":\"%s\",\"what\":\"%s\",\"bc\":\"%s\",\"detail\":\"%s\",\"runs\":%llu,\"obl\":%llu,\"bad\":%llu,\"stuck\":%llu,\"mismatch\":[%s],\"findings\":%s,\"steps\":%llu,\"loads\":%llu,\"stores\":%llu,\"branches\":%llu,\"arith\":%llu,\"funcs\":[%s],\"models\":[%s],\"wall\":%.3f}\n", (unsigned long long)peak, esc(peakFn).c_str(), esc(peakAt).c_str(), what.c_str(), esc(bc).c_str(), esc(detail).c_str(), (unsigned long long)runs, (unsigned long long)obl, (unsigned long long)bad, (unsigned long long)stuck, mm.c_str(), s.c_str(), (unsigned long long)steps, (unsigned long long)loads, (unsigned long long)stores, (unsigned long long)branches, (unsigned long long)arith, fl.c_str(), ml.c_str(), now() - t0); fflush(stdout);
    }
};
static void unhook(Interp &I, std::initializer_list<const char *> names) { for (auto n : names) { auto it = I.m.fnByName.find(n); if (it != I.m.fnByName.end()) I.hookOf[(size_t)it->second] = nullptr; } }
static u32 freshStream(u32 len, const char *name, u8 taint = T_SECRET | T_DATA) { static u64 ctr; return newStream(mixt(6000, ++ctr), len, taint, 0xffffffffu, name); }
static Bytes cellsOfBits(const std::vector<Bit> &b, size_t n) { Bytes r; for (size_t i = 0; i < n; i++) r.push_back(cellOf(mkBits(&b[8 * i], 8))); return r; }
static Bytes spongeBits(int rate, const Bytes &in, u64 outlen) {
    std::vector<Bit> st(1600, bconst(0)); Bytes p = in; p.push_back(Cell{CELL_CONST, 0x1f}); while (p.size() % (size_t)rate) p.push_back(Cell{CELL_CONST, 0});
    for (size_t o = 0; o < p.size(); o += (size_t)rate) {
        if (o) keccakBits(st);
        for (int i = 0; i < rate; i++) { Bit b[8]; bitsOf(cellsToV(&p[o + (size_t)i], 1, false), b); for (int k = 0; k < 8; k++) st[(size_t)(8 * i + k)] = bxor(st[(size_t)(8 * i + k)], b[k]); }
        if (o + (size_t)rate == p.size()) st[(size_t)(8 * rate - 1)] = bnot(st[(size_t)(8 * rate - 1)]);
    }
    Bytes out; while (out.size() < outlen) { keccakBits(st); Bytes t = cellsOfBits(st, (size_t)rate); for (int i = 0; i < rate && out.size() < outlen; i++) out.push_back(t[(size_t)i]); }
    return out;
}
static void shakeRun(Prim &P, Module &m, const char *fn, int rate, u64 il, u64 ol, bool bits) {
    Interp I(m); I.noGC = true; I.stdHooks(); I.stepLimit = 5000000 + 20000 * (il + ol) / 8; unhook(I, {"shake128", "shake256", "shake128_4x"}); if (bits) unhook(I, {"KeccakF1600_StatePermute", "KeccakP1600times4_PermuteAll_24rounds"});
    bool x4 = !strcmp(fn, "shake128_4x"); std::vector<V> args; V ret; bool found; std::vector<u32> outs; std::vector<Bytes> want; std::vector<V> ins;
    for (int k = 0; k < (x4 ? 4 : 1); k++) {
        std::string nm = "in" + std::to_string(k); Bytes in = streamBytes(freshStream((u32)il + 1, nm.c_str()), 0, (u32)il);
        outs.push_back(outRegion(I, "out" + std::to_string(k), ol)); ins.push_back(vptr(inRegion(I, nm, in), 0)); want.push_back(bits ? spongeBits(rate, in, ol) : spongeSpec(rate, 0x1f, in, ol));
    }
    for (u32 o : outs) args.push_back(vptr(o, 0));
    args.push_back(vconst(64, ol)); for (auto &i : ins) args.push_back(i); args.push_back(vconst(64, il));
    int rc = I.callByName(fn, args, ret, found);
    std::string at = anyWhere(I, m.fnByName[fn]);
    if (rc != RUN_OK) { P.stuck++; P.fail(at, std::string(fn) + " " + RUNN[rc] + " for inlen " + std::to_string(il) + ", outlen " + std::to_string(ol)); }
    else for (size_t k = 0; k < outs.size(); k++) { P.obl += ol; u64 b = 0; std::string s = cmpRegion(I, outs[k], want[k], b); if (b) { P.bad += b; P.addmm(s.substr(0, s.find("},{") == std::string::npos ? s.size() : s.find("},{") + 1)); } }
    P.absorb(I);
}
// absorb once, squeeze in several calls, on a caller's state
static void shakeInc(Prim &P, Module &m, const std::string &pre, bool x4, int rate, u64 il, const std::vector<u64> &calls) {
    std::string ab = pre + (x4 ? "_absorb4x" : "_absorb"), sq = pre + (x4 ? "_squeezeblocks4x" : "_squeezeblocks");
    Interp I(m); I.noGC = true; I.stdHooks(); I.stepLimit = 50000000; unhook(I, {"shake128", "shake256", "shake128_4x"});
    int K = x4 ? 4 : 1; u64 nb = 0; for (u64 c : calls) nb += c; u64 ol = nb * (u64)rate; std::vector<u32> outs; std::vector<Bytes> want; std::vector<V> ins;
    for (int k = 0; k < K; k++) { std::string nm = "in" + std::to_string(k); Bytes in = streamBytes(freshStream((u32)il + 1, nm.c_str()), 0, (u32)il); outs.push_back(outRegion(I, "out" + std::to_string(k), ol)); ins.push_back(vptr(inRegion(I, nm, in), 0)); want.push_back(spongeSpec(rate, 0x1f, in, ol)); }
    u32 st = I.newRegion("state", x4 ? 800 : 200, x4 ? 32 : 8, R_IN, 0); { Bytes g = streamBytes(freshStream(801, "old state"), 0, 800); for (u64 i = 0; i < (x4 ? 800u : 200u); i++) I.regs[st].c[i] = x4 ? g[i] : Cell{CELL_CONST, 0}; }
    auto lenArg = [&](const std::string &f, u64 v) { const Func &F = m.funcs[(size_t)m.fnByName[f]]; unsigned w = 64; for (size_t i = 0; i < F.argW.size(); i++) if (!F.argPtr[i]) w = F.argW[i]; return vconst(w, v); };
    std::vector<V> args = {vptr(st, 0)}; for (auto &i : ins) args.push_back(i); args.push_back(lenArg(ab, il)); V ret; bool found;
    int rc = I.callByName(ab.c_str(), args, ret, found); u64 o = 0; std::string desc = " for inlen " + std::to_string(il) + ", blocks";
    for (u64 c : calls) { desc += " " + std::to_string(c); if (rc != RUN_OK) break; std::vector<V> a; for (u32 r : outs) a.push_back(vptr(r, (i64)o)); a.push_back(lenArg(sq, x4 ? c * (u64)rate : c)); a.push_back(vptr(st, 0)); rc = I.callByName(sq.c_str(), a, ret, found); o += c * (u64)rate; }
    std::string at = anyWhere(I, m.fnByName[sq]);
    if (rc != RUN_OK) { P.stuck++; P.fail(at, sq + " " + RUNN[rc] + desc); }
    else for (size_t k = 0; k < outs.size(); k++) { P.obl += ol; u64 b = 0; std::string s = cmpRegion(I, outs[k], want[k], b); if (b) { P.bad += b; P.addmm(s.substr(0, s.find("},{") == std::string::npos ? s.size() : s.find("},{") + 1)); } }
    P.absorb(I);
}
// the value tables only grow, so long lists of runs are done in child processes, each printing its own record
static void inChild(std::function<void()> f) {
    fflush(stdout); pid_t p = fork(); if (p < 0) { f(); return; }
    if (!p) { f(); fflush(stdout); _exit(0); }
    int st = 0; if (waitpid(p, &st, 0) != p || st != 0) { fprintf(stderr, "analysis process ended with status %d\n", st); exit(4); }
}
static int shakeTask(int argc, char **argv) {
    std::string tier = argv[0], only; size_t sl = tier.find('/'); if (sl != std::string::npos) { only = tier.substr(sl + 1); tier = tier.substr(0, sl); }
    bool thorough = tier == "thorough", kemOnly = tier == "kem";
    for (int a = 1; a < argc; a++) {
        Module m; std::string err; if (!loadModule(argv[a], m, err)) { printf("{\"kind\":\"error\",\"bc\":\"%s\",\"msg\":\"%s\"}\n", argv[a], esc(err).c_str()); continue; }
        for (const char *fn : {"shake128", "shake256", "shake128_4x"}) {
            if (!m.fnByName.count(fn) || m.funcs[(size_t)m.fnByName[fn]].decl || (only.size() && only != fn)) continue;
            int rate = !strcmp(fn, "shake256") ? 136 : 168;
            bool x4 = !strcmp(fn, "shake128_4x");
            { Prim P; P.what = std::string(fn) + ":sponge"; P.bc = argv[a];
              bool hookable = m.fnByName.count(x4 ? "KeccakP1600times4_PermuteAll_24rounds" : "KeccakF1600_StatePermute") > 0; P.detail = hookable ? "permutation opaque" : "bit level";
              bool bl = !hookable;
              std::set<std::pair<u64, u64>> g; u64 R = (u64)rate;
              if (!kemOnly || bl) {
              for (u64 il = 0; il <= (thorough ? 3 * R + 3 : 2 * R + 2); il += bl ? 37 : 1) g.insert({il, 32});
              for (u64 ol = 0; ol <= (thorough ? 3 * R + 3 : 2 * R + 2); ol += bl ? 37 : 1) g.insert({17, ol});
              for (u64 il : {0ull, 1ull, 7ull, 8ull, (unsigned long long)R - 9, (unsigned long long)R - 8, (unsigned long long)R - 2, (unsigned long long)R - 1, (unsigned long long)R, (unsigned long long)R + 1, (unsigned long long)2 * R - 1, (unsigned long long)2 * R}) for (u64 ol : {0ull, 1ull, 8ull, (unsigned long long)R - 1, (unsigned long long)R, (unsigned long long)R + 1, (unsigned long long)2 * R, (unsigned long long)3 * R + 5}) if (!bl || (il + ol) % 3 == 0) g.insert({il, ol});
              }
              if (!bl) for (int n : {640, 976, 1344}) { const Params &q = *paramsFor(n); u64 CB = (u64)q.CB; if (x4) g.insert({18, 2 * (u64)n}); else { for (auto pr : std::initializer_list<std::pair<u64, u64>>{{16, 16}, {CB + 1, 32ull * (u64)n}, {CB + 1, 32ull * (u64)n + 128}, {(u64)q.pk, CB}, {2 * CB, 2 * CB}, {(u64)q.ct + CB, CB}, {18, 2 * (u64)n}}) g.insert(pr); } }
              // lengths next to every constant that decides a path here, and lengths and block counts beyond 8 and 16 bits
              if (!bl && !kemOnly) {
                  std::set<std::string> stop = {"KeccakF1600_StatePermute", "KeccakP1600times4_PermuteAll_24rounds"}; u64 cap = thorough ? 200000 : 70000, budget = (thorough ? 2000000 : 400000) / (x4 ? 4 : 1);
                  for (u64 l : pathLengths(m, fn, stop, R, cap)) { if (2 * l > budget) continue; budget -= 2 * l; g.insert({l, 32}); g.insert({17, l}); if (l < 1000) for (u64 o : {l, l + R}) g.insert({l, o}); }
                  for (u64 l : {255ull, 256ull, 257ull, 65536ull, 65537ull, 256ull * R, 257ull * R + 1}) { if (l > 50000 && !(l == 65537 && (!x4 || thorough))) continue; g.insert({l, 32}); g.insert({17, l}); }
              }
              std::vector<std::pair<u64, u64>> todo(g.begin(), g.end());
              for (size_t i = 0; i < todo.size();) { size_t j = i; u64 vol = 0; while (j < todo.size() && (j == i || vol + todo[j].first + todo[j].second < 40000)) { vol += todo[j].first + todo[j].second; j++; }
                  inChild([&] { for (size_t k = i; k < j; k++) shakeRun(P, m, fn, rate, todo[k].first, todo[k].second, bl); P.print(); }); i = j; }
            }
            std::string pre = rate == 136 ? "shake256" : "shake128", ab = pre + (x4 ? "_absorb4x" : "_absorb"), sq = pre + (x4 ? "_squeezeblocks4x" : "_squeezeblocks");
            auto def = [&](const std::string &f) { return m.fnByName.count(f) && !m.funcs[(size_t)m.fnByName[f]].decl; };
            if (def(ab) && def(sq) && m.fnByName.count(x4 ? "KeccakP1600times4_PermuteAll_24rounds" : "KeccakF1600_StatePermute")) {
                Prim P; P.what = pre + (x4 ? ":incremental4x" : ":incremental"); P.bc = argv[a]; P.detail = "absorb, then several squeezes"; u64 R = (u64)rate;
                inChild([&] {
                for (u64 il : {0ull, 1ull, 8ull, (unsigned long long)R - 1, (unsigned long long)R, (unsigned long long)R + 1, 2ull * R, 2ull * R + 9, 300ull, 4096ull, 65537ull}) { if (il > 4096 && kemOnly) continue; shakeInc(P, m, pre, x4, rate, il, {1}); if (il < 400) { shakeInc(P, m, pre, x4, rate, il, {1, 2, 1}); shakeInc(P, m, pre, x4, rate, il, {3, 0, 1}); } }
                if (!kemOnly) { if (!x4 || thorough) shakeInc(P, m, pre, x4, rate, 5, {257, 2}); for (u64 l : pathLengths(m, ab, {"KeccakF1600_StatePermute", "KeccakP1600times4_PermuteAll_24rounds"}, R, 5000)) shakeInc(P, m, pre, x4, rate, l, {2}); for (u64 l : pathLengths(m, sq, {"KeccakF1600_StatePermute", "KeccakP1600times4_PermuteAll_24rounds"}, 1, 400)) shakeInc(P, m, pre, x4, rate, 3, {l, 1}); }
                P.print(); });
            }
            { Prim P; P.what = std::string(fn) + ":bits"; P.bc = argv[a]; P.detail = "permutation on bits"; shakeRun(P, m, fn, rate, (u64)rate + 5, 2 * (u64)rate, true); if (thorough) { shakeRun(P, m, fn, rate, 3, (u64)rate, true); shakeRun(P, m, fn, rate, 3 * (u64)rate, (u64)rate * 3, true); } P.print(); }
        }
    }
    return 0;
}
static int aesTask(int argc, char **argv) {
    bool thorough = !strcmp(argv[0], "thorough");
    for (int a = 1; a < argc; a++) {
        Module m; std::string err; if (!loadModule(argv[a], m, err)) { printf("{\"kind\":\"error\",\"bc\":\"%s\",\"msg\":\"%s\"}\n", argv[a], esc(err).c_str()); continue; }
        auto have = [&](const std::string &n) { return m.fnByName.count(n) && !m.funcs[(size_t)m.fnByName[n]].decl; };
        struct Var { int nk; const char *load, *enc; bool ecb; };
        for (Var v : {Var{4, "AES128_load_schedule", "AES128_ECB_enc_sch", true}, Var{8, "AES256_load_schedule", "AES256_ECB_enc_sch", true}, Var{4, "aes128_load_schedule_c", "aes128_enc_c", false}, Var{8, "aes256_load_schedule_c", "aes256_enc_c", false}, Var{4, "aes128_load_schedule_ni", "aes128_enc_ni", false}, Var{8, "aes256_load_schedule_ni", "aes256_enc_ni", false}}) {
            if (!have(v.load) || !have(v.enc)) continue;
            Prim P; P.what = v.enc; P.bc = argv[a]; P.detail = v.nk == 4 ? "AES-128" : "AES-256";
            u32 ks = freshStream(32, "key"), ps = freshStream(16 * 4200, "pt"); u32 schLen = v.nk == 4 ? 176 : 240;
            struct Case { u64 blocks; bool inplace; };
            std::vector<Case> cases = {Case{1, false}, Case{1, true}, Case{0, false}, Case{3, false}, Case{2, true}, Case{9, false}};
            if (v.ecb) {
                std::set<u64> bs = {4, 5, 7, 8, 16, 17, 33}; bs.insert(257); if (thorough) bs.insert(4097);
                for (u64 c : pathConstants(m, v.enc, {"aes128_enc_c", "aes256_enc_c", "aes128_enc_ni", "aes256_enc_ni"})) for (u64 x : {c, c / 16}) for (u64 d : {x - 1, x, x + 1}) if (d >= 1 && d <= 300) bs.insert(d);
                for (u64 b : bs) { cases.push_back({b, false}); if (b < 20) cases.push_back({b, true}); }
            }
            std::vector<Bytes> wantBlk;
            for (Case c : cases) {
                if (!v.ecb && c.blocks != 1) continue;
                Interp I(m); I.noGC = true; I.stdHooks(); I.ctCheck = false; I.stepLimit = 10000000 + 100000 * c.blocks;
                for (auto n : {"AES128_load_schedule", "AES128_ECB_enc_sch", "aes128_load_schedule_c", "aes128_load_schedule_ni", "aes128_enc_c", "aes128_enc_ni"}) unhook(I, {n});
                Bytes key = streamBytes(ks, 0, (u32)(4 * v.nk)), pt = streamBytes(ps, 0, (u32)(16 * c.blocks)), want;
                V kv[32], iv[16], ov[16]; for (int i = 0; i < 4 * v.nk; i++) kv[i] = cellsToV(&key[(size_t)i], 1, false);
                for (u64 b = 0; b < c.blocks; b++) { if (b >= wantBlk.size()) { for (u64 i = 0; i < 16; i++) iv[i] = cellsToV(&pt[(size_t)(16 * b + i)], 1, false); aesBits(v.nk, kv, iv, ov); Bytes w; for (auto &x : ov) w.push_back(cellOf(x)); wantBlk.push_back(w); } want.insert(want.end(), wantBlk[b].begin(), wantBlk[b].end()); }
                // the callers declare schedules uint8_t[16*11]; AES-NI code requires 16-byte aligned schedules
                u32 sch = I.newRegion("schedule", schLen, 16, R_OUT, 0); u32 out = outRegion(I, "ciphertext", 16 * c.blocks); u32 in = out;
                if (c.inplace) for (size_t i = 0; i < pt.size(); i++) I.regs[out].c[i] = pt[i]; else in = inRegion(I, "plaintext", pt);
                V ret; bool found; int rc = I.callByName(v.load, {vptr(inRegion(I, "key", key), 0), vptr(sch, 0)}, ret, found);
                if (rc == RUN_OK) rc = v.ecb ? I.callByName(v.enc, {vptr(in, 0), vconst(64, 16 * c.blocks), vptr(sch, 0), vptr(out, 0)}, ret, found) : I.callByName(v.enc, {vptr(in, 0), vptr(sch, 0), vptr(out, 0)}, ret, found);
                std::string at = anyWhere(I, m.fnByName[v.enc]);
                if (rc != RUN_OK) { P.stuck++; P.fail(at, std::string(v.enc) + " " + RUNN[rc]); }
                else { P.obl += want.size(); u64 b = 0; std::string s = cmpRegion(I, out, want, b); if (b) { P.bad += b; P.addmm(s.substr(0, s.find("},{") == std::string::npos ? s.size() : s.find("},{") + 1)); } }
                P.absorb(I);
            }
            P.print();
        }
    }
    return 0;
}
static Bytes packLen(const std::vector<V> &w, int lsb, size_t outlen) { Bytes b = packSpec(w, lsb); b.resize(outlen, Cell{CELL_CONST, 0}); return b; }
static std::vector<V> unpackLen(Bytes b, size_t n, int lsb) { size_t need = (n * (size_t)lsb + 7) / 8; while (b.size() < need) b.push_back(Cell{CELL_CONST, 0}); return unpackSpec(b, n, lsb); }
static Bytes wordsToMem(const std::vector<V> &w, bool be) { Bytes r; for (auto &v : w) { Cell c[2]; vToCells(v, c, 2, be); r.push_back(c[0]); r.push_back(c[1]); } return r; }
static int helpTask(int argc, char **argv) {
    const Params &q = *paramsFor(atoi(argv[0])); bool thorough = !strcmp(argv[1], "thorough");
    for (int a = 2; a < argc; a++) {
        Module m; std::string err; if (!loadModule(argv[a], m, err)) { printf("{\"kind\":\"error\",\"bc\":\"%s\",\"msg\":\"%s\"}\n", argv[a], esc(err).c_str()); continue; }
        auto have = [&](const char *n) { return m.fnByName.count(n) && !m.funcs[(size_t)m.fnByName[n]].decl; };
        auto words = [&](u32 s, size_t n) { std::vector<V> w; for (size_t i = 0; i < n; i++) { Cell c[2] = {{s, (u32)(2 * i)}, {s, (u32)(2 * i + 1)}}; w.push_back(le16(c)); } return w; };
        auto memOf = [&](u32 s, size_t n) { Bytes b; for (size_t i = 0; i < n; i++) { Cell lo{s, (u32)(2 * i)}, hi{s, (u32)(2 * i + 1)}; if (m.be) std::swap(lo, hi); b.push_back(lo); b.push_back(hi); } return b; };
        auto check = [&](Prim &P, Interp &I, int rc, const char *fn, u32 out, const Bytes &want, const std::string &desc) {
            if (rc != RUN_OK) { P.stuck++; P.fail(anyWhere(I, m.fnByName[fn]), std::string(fn) + " " + RUNN[rc] + " for " + desc); }
            else { P.obl += want.size(); u64 b = 0; std::string s = cmpRegion(I, out, want, b); if (b) { P.bad += b; size_t e = s.find("},{"); s = s.substr(0, e == std::string::npos ? s.size() : e + 1); size_t p = s.find("\"msg\":\""); if (p != std::string::npos) s.insert(p + 7, esc(desc) + ": "); P.addmm(s); } }
            P.absorb(I); };
        if (have("frodo_sample_n")) {
            Prim P; P.what = "sample"; P.bc = argv[a]; P.detail = q.name;
            std::set<u64> lens = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 64, 257, (u64)(2 * q.N * 8 + 64), (u64)(q.N * 8)}; for (u64 l : pathLengths(m, "frodo_sample_n", {}, 1, 5000)) lens.insert(l); if (thorough) lens.insert(65536);
            for (u64 n : lens) {
                Interp I(m); I.noGC = true; I.stdHooks(); u32 s = freshStream((u32)(2 * n + 2), "rnd"); u32 r = outRegion(I, "s", 2 * n, 2); Bytes b = memOf(s, n); for (size_t i = 0; i < b.size(); i++) I.regs[r].c[i] = b[i];
                std::vector<V> w; for (auto &x : words(s, n)) w.push_back(sampleSpec(q, x)); V ret; bool found;
                int rc = I.callByName("frodo_sample_n", {vptr(r, 0), vconst(64, n)}, ret, found); check(P, I, rc, "frodo_sample_n", r, wordsToMem(w, m.be), "n=" + std::to_string(n));
            }
            P.print();
        } else printf("{\"kind\":\"note\",\"bc\":\"%s\",\"msg\":\"frodo_sample_n is not a function of this build; its obligations are carried by the operations\"}\n", argv[a]);
        if (have("frodo_pack") && have("frodo_unpack")) {
            Prim P, Q; P.what = "pack"; Q.what = "unpack"; P.bc = Q.bc = argv[a];
            for (int lsb = 1; lsb <= 16; lsb++) {
                std::set<u64> ns = {0, 1, 2, 3, 7, 8, 9, 16, 17}; if (thorough) for (u64 n = 0; n <= 40; n++) ns.insert(n); if (lsb == q.logq) { ns.insert(64); ns.insert((u64)(8 * q.N)); for (auto f : {"frodo_pack", "frodo_unpack"}) for (u64 l : pathLengths(m, f, {}, 1, 2000)) ns.insert(l); ns.insert(257); if (thorough) ns.insert(65537); }
                for (u64 n : ns) {
                    u64 full = n * (u64)lsb / 8, ceil = (n * (u64)lsb + 7) / 8;
                    for (u64 ol : std::set<u64>{full, ceil, ceil + 3, full > 2 ? full - 2 : 0}) {
                        if (n > 100 && ol != ceil) continue;
                        u32 s = freshStream((u32)(2 * n + 2), "words"); Interp I(m); I.noGC = true; I.stdHooks(); u32 r = outRegion(I, "out", ol); V ret; bool found;
                        int rc = I.callByName("frodo_pack", {vptr(r, 0), vconst(64, ol), vptr(inRegion(I, "in", memOf(s, n), 2), 0), vconst(64, n), vconst(8, (u64)lsb)}, ret, found);
                        check(P, I, rc, "frodo_pack", r, packLen(words(s, n), lsb, ol), "lsb=" + std::to_string(lsb) + " inlen=" + std::to_string(n) + " outlen=" + std::to_string(ol));
                    }
                    for (u64 il : std::set<u64>{ceil, ceil + 2, full, ceil > 2 ? ceil - 2 : 0}) {
                        if (n > 100 && il != ceil) continue;
                        u32 s = freshStream((u32)(il + 2), "bytes"); Bytes in = streamBytes(s, 0, (u32)il); Interp I(m); I.noGC = true; I.stdHooks(); u32 r = outRegion(I, "out", 2 * n, 2); V ret; bool found;
                        int rc = I.callByName("frodo_unpack", {vptr(r, 0), vconst(64, n), vptr(inRegion(I, "in", in), 0), vconst(64, il), vconst(8, (u64)lsb)}, ret, found);
                        check(Q, I, rc, "frodo_unpack", r, wordsToMem(unpackLen(in, n, lsb), m.be), "lsb=" + std::to_string(lsb) + " outlen=" + std::to_string(n) + " inlen=" + std::to_string(il));
                    }
                }
            }
            P.print(); Q.print();
        }
        if (have("frodo_key_encode") && have("frodo_key_decode")) {
            Prim P; P.what = "encode"; P.bc = argv[a]; { u32 s = freshStream((u32)q.CB + 2, "mu"); Bytes mu = streamBytes(s, 0, (u32)q.CB); Interp I(m); I.noGC = true; I.stdHooks(); u32 r = outRegion(I, "out", 128, 2); V ret; bool found;
                std::vector<V> w; std::vector<Bit> mb(8 * mu.size()); for (size_t i = 0; i < mu.size(); i++) bitsOf(cellsToV(&mu[i], 1, false), &mb[8 * i]);
                for (size_t i = 0; i < 64; i++) { Bit e[16]; for (auto &x : e) x = bconst(0); for (int l = 0; l < q.B; l++) e[q.logq - q.B + l] = mb[i * (size_t)q.B + (size_t)l]; w.push_back(mkBits(e, 16)); }
                int rc = I.callByName("frodo_key_encode", {vptr(r, 0), vptr(inRegion(I, "in", mu, 2), 0)}, ret, found); check(P, I, rc, "frodo_key_encode", r, wordsToMem(w, m.be), q.name); } P.print();
            Prim Q; Q.what = "decode"; Q.bc = argv[a]; { u32 s = freshStream(130, "w"); Interp I(m); I.noGC = true; I.stdHooks(); u32 r = outRegion(I, "out", (u64)q.CB, 2); V ret; bool found;
                std::vector<Bit> mb(64 * (size_t)q.B); const Params *qq = &q; auto ws = words(s, 64);
                for (size_t i = 0; i < 64; i++) { V v = uniFromWord(ws[i], 910000 + (u64)q.N, 16, [qq](u64 x) { u64 qm = (1ull << qq->logq) - 1, half = 1ull << (qq->logq - qq->B - 1); return (((x & qm) + half) >> (qq->logq - qq->B)) & ((1ull << qq->B) - 1); }); Bit b[16]; bitsOf(v, b); for (int l = 0; l < q.B; l++) mb[i * (size_t)q.B + (size_t)l] = b[l]; }
                int rc = I.callByName("frodo_key_decode", {vptr(r, 0), vptr(inRegion(I, "in", memOf(s, 64), 2), 0)}, ret, found); check(Q, I, rc, "frodo_key_decode", r, cellsOfBits(mb, (size_t)q.CB), q.name); } Q.print();
        }
    }
    return 0;
}

// analyze dfr <N>: exact distribution of one element of the decryption error S'E - E'S + E'' modulo q, from the specified table, and the union bound over the 64 elements
static int dfrTask(int argc, char **argv) {
    const Params *pp = argc > 0 ? paramsFor(atoi(argv[0])) : nullptr; if (!pp) return 2; const Params &P = *pp; double t0 = now();
    const int q = 1 << P.logq, t = q >> (P.B + 1), top = P.ncdf; std::vector<double> chi(2 * (size_t)top + 1, 0.0);
    for (int x = 0; x < 65536; x++) { int w = x >> 1, e = 0; for (int i = 0; i < P.ncdf - 1; i++) if (w > P.cdf[i]) e++; chi[(size_t)(top + ((x & 1) ? -e : e))] += 1.0 / 65536; }
    // decoding recovers the message exactly for errors in [-t, t) and for no other: all messages, all errors
    u64 checked = 0, wrong = 0;
    for (int k = 0; k < (1 << P.B); k++) for (int e = 0; e < q; e++) { u32 v = (u32)(k * (q >> P.B) + e) & (u32)(q - 1); u32 d = ((v * (1u << P.B) + (u32)(q / 2)) / (u32)q) & ((1u << P.B) - 1); bool in = e < t || e >= q - t; checked++; if ((d == (u32)k) != in) wrong++; }
    std::map<int, double> pr; for (int a = -top; a <= top; a++) for (int b = -top; b <= top; b++) { double x = chi[(size_t)(a + top)] * chi[(size_t)(b + top)]; if (x > 0) pr[a * b] += x; }
    std::vector<double> d((size_t)q, 0.0), r((size_t)q); d[0] = 1; u64 ops = 0;
    auto conv = [&](const std::map<int, double> &k) {
        std::fill(r.begin(), r.end(), 0.0);
        for (auto &kv : k) { int s = ((kv.first % q) + q) % q; double x = kv.second; for (int i = 0; i < q - s; i++) r[(size_t)(i + s)] += x * d[(size_t)i]; for (int i = q - s; i < q; i++) r[(size_t)(i + s - q)] += x * d[(size_t)i]; }
        ops += k.size(); d.swap(r);
    };
    for (int i = 0; i < 2 * P.N; i++) conv(pr);
    std::map<int, double> one; for (int a = -top; a <= top; a++) if (chi[(size_t)(a + top)] > 0) one[a] = chi[(size_t)(a + top)]; conv(one);
    double f = 0; for (int i = t; i < q - t; i++) f += d[(size_t)i];
    // all terms are non-negative, so each rounding contributes a relative factor of at most 1 + 2^-53 (no underflow: the smallest product stays above 1e-250)
    double rel = ((double)ops * 3 + q) * std::ldexp(1.0, -53); double tot = 0; for (double x : d) tot += x;
    double bound = std::log2(64 * f * (1 + rel) + 64 * 1e-250);
    printf("{\"kind\":\"dfr\",\"n\":%d,\"products\":%d,\"log2_element\":%.4f,\"log2_bound\":%.4f,\"relative_error\":%.3g,\"total_mass_error\":%.3g,\"decode_cases\":%llu,\"decode_wrong\":%llu,\"wall\":%.1f}\n", P.N, 2 * P.N, std::log2(f), bound, rel, tot - 1, (unsigned long long)checked, (unsigned long long)wrong, now() - t0);
    return 0;
}
void domStats(FILE *f);
int scanTask(int, char **); int narrowTask(int, char **); int pyTask(int, char **);
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    const char *s = getenv("VERIF_SEED"); hashInit(0x5eed0000ull + (s ? strtoull(s, 0, 10) : 1));
    std::string t = argv[1]; if (t.compare(0, 3, "ub:") == 0) { rangeOn = true; t = t.substr(3); }
    if (t == "kem") { int r = kemTask(argc - 2, argv + 2); if (getenv("DOMSTATS")) domStats(stderr); return r; }
    if (t == "shake") return shakeTask(argc - 2, argv + 2);
    if (t == "aes") return aesTask(argc - 2, argv + 2);
    if (t == "help") return helpTask(argc - 2, argv + 2);
    if (t == "dfr") return dfrTask(argc - 2, argv + 2);
    if (t == "narrow") return narrowTask(argc - 2, argv + 2);
    if (t == "scan") return scanTask(argc - 2, argv + 2);
    if (t == "py") return pyTask(argc - 2, argv + 2);
    fprintf(stderr, "unknown task %s\n", argv[1]); return 2;
}
