"""Which analyses decide which property, and how their records become verdicts."""
import json, os, re
from . import ir, run
from .run import Task, CheckError

APIS = ("kp", "enc", "dec")
APINAME = {"kp": "crypto_kem_keypair", "enc": "crypto_kem_enc", "dec": "crypto_kem_dec"}
W = {640: 1.0, 976: 2.3, 1344: 4.4}
OW = {"REFERENCE": 1.3, "FAST_GENERIC": 1.1, "FAST": 0.9}
TRUSTED = ["clang 18 front end (C to LLVM IR) and llvm-link/opt sroa,early-cse", "the analyser in /verif/engine: transfer functions, value numbering (128-bit keyed fingerprints, collision probability < 2^-60 per run)",
           "the FrodoKEM/FIPS 202/FIPS 197 transcription in engine/spec.cpp", "models of libc mem* functions, randombytes and OpenSSL EVP (engine/hooks.cpp)"]

class Result:
    last = None
    def __init__(self, level="proof"):
        self.level, self.violations, self.coverage, self.assumptions = level, [], {}, []
        self.obl = self.dis = 0
        self._seen = {}
        Result.last = self
    def bad(self, where, func, msg, config="-"):
        k = (where, func, re.sub(r"0x[0-9a-f]+|#\d+|\d+", "N", msg))
        if k in self._seen:
            self._seen[k]["configs"] = self._seen[k].get("configs", 1) + 1
            return
        v = {"where": where, "func": func, "msg": msg, "config": config}
        self._seen[k] = v
        self.violations.append(v)
    def finish(self, rule, **kw):
        self.coverage.update({"obligations": self.obl, "discharged": self.dis, "rule": rule, "checker_cmd": "python3 check.py <id> %s" % os.environ.get("VERIF_TIER", "quick"), "trusted_base": TRUSTED})
        self.coverage.update(kw)
        if self.level == "other" and "explanation" not in self.coverage:
            self.coverage["explanation"] = rule
        if run.DEFERRED and not self.violations:
            raise CheckError(run.DEFERRED[0])
        if run.LEFT and not self.violations:
            raise CheckError("analyses were left out without a violation")
        if self.obl == 0:
            raise CheckError("no obligation was generated: the anchors of this property were not found")
        return self

def known_findings(pid):
    p = os.path.join(ir.VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == pid]

def matches(k, v):
    return k.get("func") == v.get("func") and k.get("msg") == v.get("msg") and k.get("file") == v["where"].split(":")[0]

def cfg(tag):
    return "/".join(str(x) for x in tag)

# ---------------------------------------------------------------- task construction
def kem_tasks(mods, apis=APIS, mode="main", keep=lambda n, o, g: True):
    ts = []
    for (n, o, g), bc in mods.items():
        if keep(n, o, g):
            for a in apis:
                ts.append(Task(["kem", n, "SHAKE" if g == "SHAKE" else "AES", a + ":" + mode, bc], W[n] * OW.get(o, 1), (n, o, g, a), 0.6))
    return ts

def shake_tasks(mods, tier):
    ts = []
    for o in ir.OPTS:
        for f in ("shake128", "shake256", "shake128_4x"):
            if f != "shake128_4x" or o == "FAST":
                ts.append(Task(["shake", tier + "/" + f, mods[(640, o, "SHAKE")]], 6 if f != "shake128_4x" else 20, ("shake", o, f)))
    return ts

def aes_tasks(mods, tier="quick"):
    return [Task(["aes", tier, mods[(640, o, g)]], 3, ("aes", o, g)) for o in ir.OPTS for g in ("AES-own", "AES-ossl")]

def help_tasks(mods, tier):
    return [Task(["help", n, tier, mods[(n, o, "SHAKE")]], 2, ("help", n, o)) for n in ir.SIZES for o in ir.OPTS]

def the_modules(keep=lambda n, o, g: True):
    return ir.all_kem(run.irdir())

# ---------------------------------------------------------------- reading records
def kem_recs(tasks):
    for t in tasks:
        for r in t.recs:
            if r.get("kind") in ("kem", "randfail", "evpfail", "rand", "evp"):
                yield t, r

def stats(tasks):
    s = {"analyses": 0, "steps": 0, "loads": 0, "stores": 0, "branches": 0, "calls": 0}
    fn = set()
    for t in tasks:
        for r in t.recs:
            if "steps" in r:
                s["analyses"] += 1
                for k in ("steps", "loads", "stores", "branches", "calls"):
                    s[k] += r.get(k, 0)
                fn.update(r.get("funcs", []))
    s["functions_analysed"] = len(fn)
    s["functions"] = sorted(fn)
    s["samples"] = [{"task": cfg(t.tag), "wall_s": round(t.wall, 1), "steps": sum(r.get("steps", 0) for r in t.recs)} for t in tasks[:4]]
    return s

def conformance(res, tasks):
    """every byte of every output of every analysed operation has the specification's value"""
    for t, r in kem_recs(tasks):
        if r["kind"] != "kem":
            continue
        c = cfg(t.tag)
        res.obl += r["bytes"] + 1
        if r["run"] != "returned":
            und = [f for f in r["findings"] if f["cls"] in ("undecided", "extcall", "oob", "lifetime", "uninit", "evp")]
            f = und[-1] if und else {"where": r["where"], "func": r["entry"], "msg": "no result"}
            res.bad(f["where"], f["func"], "%s: result not established (%s): %s" % (r["entry"], r["run"], f["msg"]), c)
            continue
        res.dis += r["bytes"] - r["bad"]
        if r["retok"]:
            res.dis += 1
        else:
            res.bad(r["where"], r["entry"], "status %s instead of 0" % r["ret"], c)
        for m in r["mismatch"]:
            res.bad(m["where"], m["func"], "%s: %s[%d] %s" % (r["entry"], m["buf"], m["byte"], m["msg"]), c)
        if r["bad"] and not r["mismatch"]:
            res.bad(r["where"], r["entry"], "%d output bytes differ" % r["bad"], c)

def nonconforming(r, want=None):
    """this record makes conformance() or primitives() report"""
    if r.get("kind") == "kem":
        return r["run"] != "returned" or not r["retok"] or r["bad"] > 0
    return r.get("kind") == "prim" and (not want or want(r["what"])) and bool(r["mismatch"] or r["bad"] or r["stuck"])

def primitives(res, tasks, want=None):
    seen = set()
    for t in tasks:
        for r in t.recs:
            if r.get("kind") != "prim" or (want and not want(r["what"])):
                continue
            seen.add(r["what"])
            res.obl += r["obl"] + r["stuck"]
            res.dis += r["obl"] - r["bad"]
            for m in r["mismatch"]:
                res.bad(m["where"], m["func"], "%s: %s" % (r["what"], ("%s[%d] " % (m["buf"], m["byte"]) if "buf" in m and m.get("byte", -1) >= 0 else "") + m["msg"]), cfg(t.tag))
            if (r["bad"] or r["stuck"]) and not r["mismatch"]:
                res.bad("-", r["what"], "%d outputs differ, %d undecided" % (r["bad"], r["stuck"]), cfg(t.tag))
    return seen

def findings(res, tasks, classes, kinds=("kem", "prim"), skip=lambda f, r: False):
    for t in tasks:
        for r in t.recs:
            if r.get("kind") in kinds:
                for f in r.get("findings", []):
                    if f["cls"] in classes and not skip(f, r):
                        res.bad(f["where"], f["func"], "[%s] %s" % (f["cls"], f["msg"]), cfg(t.tag))

def stuck(res, tasks, as_violation, reason):
    """analyses that did not reach the end: the obligations behind that point are not discharged"""
    n = 0
    for t, r in kem_recs(tasks):
        if r["kind"] == "kem" and r["run"] != "returned":
            f = ([f for f in r["findings"] if f["cls"] in ("undecided", "extcall", "evp", "oob", "lifetime")] or [{"where": r["where"], "func": r["entry"], "msg": r["run"]}])[-1]
            n += 1
            if as_violation:
                res.bad(f["where"], f["func"], "%s not established beyond this point: %s" % (reason, f["msg"]), cfg(t.tag))
            elif not res.violations:
                raise CheckError("%s %s: analysis stops at %s (%s): %s" % (cfg(t.tag), r["entry"], f["where"], f["func"], f["msg"]))
    return n

# ---------------------------------------------------------------- properties
def conf_check(api):
    def f(tier):
        res = Result()
        mods = the_modules()
        ks = kem_tasks(mods, (api,))
        ps = shake_tasks(mods, "kem" if tier == "quick" else "thorough") + aes_tasks(mods)
        want = lambda w: not w.startswith("AES256") and not w.startswith("aes256")
        run.run_tasks(ks + ps, bail=lambda r: nonconforming(r, want))
        conformance(res, ks)
        primitives(res, ps, want)
        return res.finish("one obligation per output byte and per status code: its value number equals the value number of the specification's expression over the same inputs; the hash and cipher routines used as opaque functions are themselves compared bit by bit with FIPS 202 / FIPS 197",
                          configurations=len(ks), **stats(ks + ps))
    return f

LENGTH_ROOTS = ("shake128", "shake256", "shake128_4x", "shake128_absorb4x", "shake128_squeezeblocks4x", "shake128_squeezeblocks", "shake256_squeezeblocks")
def narrowing(res, roots, bcs, most=32):
    """lengths must not be cut to fewer bits on their way through the functions"""
    t = Task(["narrow", ",".join(roots)] + bcs, 1, ("lengths",))
    run.run_tasks([t])
    n = 0
    for r in t.recs:
        if r.get("kind") == "narrow":
            n += r["values"]
            res.obl += r["values"]
            res.dis += r["values"] - len(r["lost"])
            for x in r["lost"]:
                if x["bits"] > most:
                    res.dis += 1
                    continue
                res.bad(x["where"], x["func"], "[length] a value computed from a 64-bit length is cut to %d bits where nothing bounds it" % x["bits"], "lengths")
    return n

def c04(tier):
    res = Result("other")
    mods = the_modules()
    ts = run.run_tasks(shake_tasks(mods, tier))
    seen = primitives(res, ts)
    nv = narrowing(res, LENGTH_ROOTS, [mods[(640, o, "SHAKE")] for o in ir.OPTS])
    for w in ("shake128:sponge", "shake256:sponge", "shake128_4x:sponge"):
        if w not in seen:
            raise CheckError("%s not found" % w)
    return res.finish("for every (message length, output length) of a grid around the block boundaries and every length the KEM uses, each output byte of the sponge equals FIPS 202 for all message bytes (permutation opaque); lengths next to every constant that decides a path are added to the grid; absorbing once and squeezing in several calls likewise; values computed from a length are never cut to fewer bits unbounded; the permutation itself is compared with FIPS 202 bit by bit (ANF value numbering) for all states", routines=sorted(seen), length_values=nv, **stats(ts))

def c05(tier):
    res = Result("proof")
    mods = the_modules()
    ts = run.run_tasks(aes_tasks(mods, tier))
    seen = primitives(res, ts)
    nv = narrowing(res, ("AES128_ECB_enc_sch", "AES256_ECB_enc_sch"), [mods[(640, o, "AES-own")] for o in ir.OPTS])
    for w in ("AES128_ECB_enc_sch", "AES256_ECB_enc_sch"):
        if w not in seen:
            raise CheckError("%s not found" % w)
    return res.finish("each ciphertext byte of key schedule + ECB encryption equals FIPS 197 for all keys and blocks (byte-function value numbering), 0 to 257 blocks (and counts next to every constant that decides a path), in place and separate buffers; values computed from the length are never cut to fewer bits unbounded", routines=sorted(seen), length_values=nv, **stats(ts))

def c06(tier):
    res = Result("proof")
    mods = the_modules()
    ts = run.run_tasks(help_tasks(mods, tier))
    primitives(res, ts, lambda w: w == "sample")
    miss = [t.tag[1:] for t in ts if not any(r.get("what") == "sample" for r in t.recs)]
    ks = []
    if miss:      # the sampler is not a separate function any more: the operations decide
        ks = run.run_tasks(kem_tasks(mods, ("kp",), keep=lambda n, o, g: (n, o) in miss and g == "SHAKE"))
        conformance(res, ks)
    nv = narrowing(res, ("frodo_sample_n",), [mods[(640, o, "SHAKE")] for o in ir.OPTS], 16)
    return res.finish("each of the vector's output words equals the specified inversion sampling of the input word, as a function on all 2^16 words (tabulated), for a grid of vector lengths and the KEM's; the length is never cut to 16 bits or fewer", length_values=nv, carried_by_operations=len(ks), **stats(ts + ks))

def c07(tier):
    res = Result("other")
    mods = the_modules()
    ts = run.run_tasks(help_tasks(mods, tier))
    seen = primitives(res, ts, lambda w: w in ("pack", "unpack", "encode", "decode"))
    miss = [t.tag[1:] for t in ts if len({r.get("what") for r in t.recs} & {"pack", "unpack", "encode", "decode"}) < 4]
    ks = []
    if miss:
        ks = run.run_tasks(kem_tasks(mods, ("enc", "dec"), keep=lambda n, o, g: (n, o) in miss and g == "SHAKE"))
        conformance(res, ks)
    nv = narrowing(res, ("frodo_pack", "frodo_unpack"), [mods[(640, o, "SHAKE")] for o in ir.OPTS], 16)
    return res.finish("each output byte/word of pack, unpack, encode and decode equals the specification's bit-level expression for all input values, for all widths 1..16 and a grid of lengths including partial bytes and truncated buffers; lengths are never cut to 16 bits or fewer", length_values=nv, routines=sorted(seen), carried_by_operations=len(ks), **stats(ts + ks))

ALL = {}
def all_main(extra=(), bail=None):
    mods = the_modules()
    ks = kem_tasks(mods)
    ex = [t for f in extra for t in f(mods)]
    run.run_tasks(ks + ex, bail=bail)
    return mods, ks, ex

def crosscut(classes, what, reason, as_violation, rule, level="proof", prims=(), kinds=("kem", "prim"), skip=lambda f, r: False, count=("loads", "stores"), post=None, lto=False):
    def f(tier):
        res = Result(level)
        ex = []
        if "help" in prims: ex.append(lambda m: help_tasks(m, tier))
        if "shake" in prims: ex.append(lambda m: shake_tasks(m, tier if "lengths" in prims or tier != "quick" else "kem"))
        if "aes" in prims: ex.append(lambda m: aes_tasks(m, tier))
        definite = lambda r: r.get("kind") in kinds and any(f["cls"] in classes and not skip(f, r) for f in r.get("findings", []))
        mods, ks, ps = all_main(ex, definite)
        findings(res, ks + ps, classes, kinds, skip)
        os_ = []
        if lto and not res.violations:      # the same operations after -O3 and link-time optimisation; only definite findings count there
            os_ = kem_tasks(ir.all_lto(run.irdir(), ir.SIZES if tier == "thorough" else (640,)), mode="opt")
            for t in os_:
                t.tag = t.tag + ("LTO",)
            run.run_tasks(os_, strict=False, bail=definite)
            findings(res, os_, classes, kinds, skip)
        for t in ks + ps + os_:
            for r in t.recs:
                if r.get("kind") in kinds:
                    res.obl += sum(r.get(k, 0) for k in count)
                    res.dis += sum(r.get(k, 0) for k in count)
        if post and not run.LEFT:
            post(res, mods, ks, ps, tier)
        stuck(res, ks, as_violation, reason)
        res.dis -= len(res.violations)
        x = {"optimised": {"analyses": len(os_), "complete": sum(any(r.get("run") == "returned" for r in t.recs) for t in os_), "every_output_byte_as_specified": sum(any(r.get("run") == "returned" and r["bad"] == 0 for r in t.recs) for t in os_)}} if lto else {}
        return res.finish(rule, configurations=len(ks) + len(os_), **x, **stats(ks + ps + os_))
    return f

def ub_tasks(ts):
    for t in ts:
        t.args[0] = "ub:" + t.args[0]
    return ts

def c08(tier):
    res = Result("proof")
    mods = the_modules()
    os.environ["VERIF_SHIFTS"] = ir.signed_shifts(run.irdir())
    ks = ub_tasks(kem_tasks(mods, keep=lambda n, o, g: tier == "thorough" or n == 640 or g == "SHAKE"))
    ps = ub_tasks(shake_tasks(mods, "kem" if tier == "quick" else "thorough") + aes_tasks(mods) + help_tasks(mods, tier))
    run.run_tasks(ks + ps, bail=lambda r: r.get("kind") in ("kem", "prim") and any(f["cls"] == "arith" for f in r.get("findings", [])))
    for t in ks + ps:
        for r in t.recs:
            res.obl += r.get("arith", 0)
            res.dis += r.get("arith", 0)
    findings(res, ks + ps, {"arith"})
    stuck(res, ks, False, "defined arithmetic")
    res.dis -= len(res.violations)
    return res.finish("at every addition, subtraction and multiplication on signed operands the exact interval of the result (from the operands' intervals, bit widths and tabulated functions, for all inputs) lies in the type; every shift amount is below the width; a left shift on a signed type (as told by the front end) has a non-negative operand and a representable result; no divisor can be zero; every pointer stays within its object or, unused, within 4096 bytes of it", configurations=len(ks), **stats(ks + ps))

def outputs_written(res, mods, ks, ps, tier):
    for t, r in kem_recs(ks):
        if r["kind"] == "kem" and r["run"] == "returned":
            res.obl += r["bytes"]
            for m in r["mismatch"]:
                if "never written" in m["msg"]:
                    res.bad(r["where"], r["entry"], "output %s[%d] is never written" % (m["buf"], m["byte"]), cfg(t.tag))
            if r["uninitOut"] and not any("never written" in m["msg"] for m in r["mismatch"]):
                res.bad(r["where"], r["entry"], "an output is not filled on every path (%s still holds what was there before)" % r["uninitAt"].split(" ")[0], cfg(t.tag))
            res.dis += r["bytes"]

def outputs_defined(res, mods, ks, ps, tier):
    for t, r in kem_recs(ks):
        if r["kind"] == "kem" and r["run"] == "returned":
            res.obl += r["bytes"]
            res.dis += r["bytes"]
            if r["uninitOut"]:
                res.bad(r["uninitAt"].split(" ")[-1] if "written" not in r["uninitAt"] else r["where"], r["entry"], "output depends on uninitialised memory: " + r["uninitAt"], cfg(t.tag))

c09 = crosscut({"ct"}, "secret-dependent control flow or address", "constant time", True,
    "taint (secret/public) carried by the value domain: at every branch, address, division and variable-time call of every operation the operand's value must not depend on secret inputs; on the code as written and again after -O3 and link-time optimisation; in the hash functions with every input byte secret", count=("branches", "loads", "stores"), prims=("shake",), lto=True)
c10 = crosscut({"erase"}, "secret left", "erasure", True,
    "every byte of every working buffer, when its frame ends, must not hold the value number of a secret intermediate of the specification; clearing must be by volatile stores or a recognised non-removable primitive; and again after -O3 and link-time optimisation (what the optimiser removed is then really gone)", kinds=("kem",), count=("stores",), lto=True)
c12 = crosscut({"oob", "lifetime", "inputwrite", "constwrite", "outread", "unwritten"}, "bad access", "memory safety", True,
    "every load and store of every analysed operation: its object and offset interval is computed (constant propagation with affine index terms) and must lie inside the live object; inputs and constants never written; outputs fully written", prims=("help", "shake", "aes", "lengths"), post=outputs_written)
c13 = crosscut({"align"}, "misaligned access", "alignment", False,
    "every load and store whose type the compiler assumes aligned: the object's guaranteed alignment and the offset imply the required alignment (caller buffers are only 1-byte aligned)", prims=("help", "shake", "aes"), skip=lambda f, r: "4x" in r.get("what", ""))
c15 = crosscut({"uninit"}, "uninitialised", "definedness", True,
    "every branch, address, selection, call argument and output byte: its value must not depend on a byte never written", prims=("help", "shake", "aes", "lengths"), count=("loads", "branches"), post=outputs_defined)

def c11(tier):
    res = Result("proof")
    mods = the_modules()
    ks = kem_tasks(mods, ("kp", "enc", "dec"), "rand", keep=lambda n, o, g: g != "AES-ossl" or o == "REFERENCE" or tier == "thorough")
    run.run_tasks(ks)
    for t, r in kem_recs(ks):
        if r["kind"] == "randfail":
            res.obl += 1
            if r["ok"]:
                res.dis += 1
            else:
                res.bad(r["where"], r["entry"], "failure of random request %d is not reported: operation %s with status %s" % (r["at"], r["run"], r["ret"]), cfg(t.tag))
        if r["kind"] == "rand":
            res.obl += 1
            if r["run"] == "stuck":
                raise CheckError("analysis of %s did not reach the end" % r["entry"])
            res.dis += 1
            if t.tag[3] in ("kp", "enc") and r["randCalls"] == 0:
                res.bad(r["where"], r["entry"], "no random bytes are requested", cfg(t.tag))
            for f in r["findings"]:
                if f["cls"] == "randexcess":
                    res.bad(f["where"], f["func"], f["msg"], cfg(t.tag))
    from . import rng
    rng.check(res, tier)
    return res.finish("each random request of each operation is made to fail: the operation must return a non-zero status; the random source's body is analysed in a relational (polyhedral) domain: status 0 implies that the filled prefix equals the requested length", configurations=len(ks), **stats(ks))

def c16(tier):
    res = Result("proof")
    mods = the_modules()
    ks = kem_tasks(mods, APIS, "evp", keep=lambda n, o, g: g == "AES-ossl")
    run.run_tasks(ks)
    for t, r in kem_recs(ks):
        c = cfg(t.tag)
        if r["kind"] == "evp":
            res.obl += r["evpEvents"] + r["probes"] + r["evpCtx"]
            res.dis += r["evpEvents"] + r["aborted"]
            if r["run"] != "returned":
                f = (r["findings"] or [{"where": r["where"], "func": r["entry"], "msg": r["run"]}])[-1]
                if f.get("cls") in ("evp", "undecided"):
                    res.bad(f["where"], f["func"], f["msg"], c)
                else:
                    raise CheckError("analysis of %s did not reach the end: %s" % (r["entry"], f["msg"]))
            if r["evpEvents"] == 0:
                raise CheckError("no OpenSSL call reached in %s" % c)
            if r["evpLive"]:
                res.bad(r["where"], r["entry"], "%d cipher contexts are not released when the operation returns" % r["evpLive"], c)
            else:
                res.dis += r["evpCtx"]
            for f in r["findings"]:
                if f["cls"] == "evp":
                    res.bad(f["where"], f["func"], f["msg"], c)
            esc = sum(e[2] for e in r["escapes"])
            bad = any(x["kind"] == "evpfail" and not x["ok"] for x in t.recs)
            if not bad:
                res.dis += esc
        if r["kind"] == "evpfail" and not r["ok"]:
            res.bad(r["where"], r["entry"], "a failure (%d) of %s is not acted on: the operation %s with status %s" % (r["rcode"], r["what"], r["run"], r["ret"]), c)
    return res.finish("typestate of every cipher context (new, initialised with AES-128-ECB and the public seed, released once) at every OpenSSL call of every operation, and for each call the continuation with a failure result (0 and -1): it must end abnormally or with a non-zero status", configurations=len(ks), **stats(ks))

# ---------------------------------------------------------------- whole-module effects
def scan(mods):
    t = Task(["scan"] + list(mods.values()), 1, ("scan",))
    run.run_tasks([t])
    inv = {v: k for k, v in mods.items()}
    return [(inv[r["bc"]], r) for r in t.recs if r.get("kind") == "scan"]

STATEFUL = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "srand48", "strtok", "getenv", "setenv", "putenv", "localtime", "gmtime", "setlocale", "signal", "sigaction", "RAND_bytes", "RAND_priv_bytes", "atexit", "on_exit"}
HANDLE = ("call:open", "call:open64", "call:fopen", "self", "const:")

def is_rng(w):
    return w["rng"] or w["where"].startswith("random/")

def c14(tier):
    res = Result("proof")
    mods = the_modules()
    unsure, ng, handles, nf = [], 0, set(), set()
    for tag, r in scan(mods):
        ng += r["mutable"]; nf.update(r["funcs"])
        for g in r["globals"]:
            res.obl += 1
            ok = True
            if g["decl"] and g["name"] not in ("stderr", "stdout", "stdin", "environ"):
                ok = False
                res.bad(g["where"], g["name"], "a variable defined outside the library is used: " + g["name"], cfg(tag))
            ws = g["writes"]
            if ws and not g["decl"]:
                handle = g["scalar"] and not g["tls"] and all(is_rng(w) and w["how"] == "store" and all(v.startswith(HANDLE) for v in w["value"].split("|")) for w in ws) and any("call:" in w["value"] for w in ws)
                if handle:
                    handles.add(g["name"])
                    for e in r["ext"]:
                        if e["name"] in ("close", "fclose"):
                            for x in e["sites"]:
                                if "load:" + g["name"] in x["args"]:
                                    ok = False
                                    res.bad(x["where"], x["func"], "the shared random-device handle %s is closed while another call may be using it" % g["name"], cfg(tag))
                else:
                    definite = [w for w in ws if w["how"] in ("store", "atomic update", "memory function destination") or w["how"].startswith("passed to")]
                    ok = False
                    if definite:
                        w = definite[0]
                        res.bad(w["where"], w["func"], "process-wide mutable variable %s (%s) is modified: %s" % (g["name"], g["where"], w["how"]), cfg(tag))
                    else:
                        unsure.append((tag, g))
            if ok:
                res.dis += 1
        for e in r["ext"]:
            if e["name"] in STATEFUL:
                for x in e["sites"]:
                    res.bad(x["where"], x["func"], "%s keeps or reads process-wide state" % e["name"], cfg(tag))
    ks = []
    if unsure:      # an address escapes into memory: does any operation write through it?
        tags = {t for t, _ in unsure}
        ks = run.run_tasks(kem_tasks({k: v for k, v in mods.items() if k in tags}))
        findings(res, ks, {"globalwrite"})
        stuck(res, ks, True, "absence of shared mutable state")
        res.dis += len(unsure)
    return res.finish("every writable global variable of every build: all uses of its address are followed (through casts, pointer arithmetic, parameters and returns); none may write it, except the random device's handle, written only underneath randombytes with the result of open()",
                      mutable_globals=ng, random_handles=sorted(handles), configurations=len(mods), functions_analysed=len(nf), functions=sorted(nf), **({"escapes_followed": len(unsure)} if unsure else {}))

PURE = re.compile(r"^(llvm\.(?!readcyclecounter|x86\.rdtsc|x86\.rdrand|x86\.rdseed|returnaddress|write_register|read_register|debugtrap|clear_cache)[\w.]+|mem(cpy|move|set|cmp|chr|ccpy)|__mem(cpy|set|move)_chk|bcmp|bcopy|bzero|explicit_bzero|memset_s|explicit_memset|OPENSSL_cleanse|CRYPTO_memcmp|malloc|calloc|realloc|free|aligned_alloc|posix_memalign|_mm_malloc|_mm_free|str(len|cmp|ncmp)|abs|labs)$")
CIPHER = re.compile(r"^EVP_(CIPHER_CTX_(new|free|reset|init|cleanup|set_padding)|EncryptInit(_ex2?)?|EncryptUpdate|EncryptFinal(_ex)?|CipherInit_ex2?|CipherUpdate|CipherFinal_ex|aes_128_ecb|aes_256_ecb|Cipher|CIPHER_fetch|CIPHER_free)$")
DEVICE = {"open", "open64", "read", "close", "getrandom", "getentropy", "__errno_location", "usleep", "nanosleep", "sched_yield", "fopen", "fread", "fclose"}
FATAL = {"abort", "exit", "_exit", "_Exit", "__assert_fail", "ERR_print_errors_fp", "ERR_get_error", "ERR_peek_error", "ERR_clear_error", "llvm.trap"}

ALLOC = {"malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "_mm_malloc"}
def c17(tier):
    res = Result("proof")
    mods = the_modules()
    sites, fatal, nf, names = 0, set(), set(), set()
    for tag, r in scan(mods):
        nf.update(r["funcs"])
        for a in r["asm"]:
            res.obl += 1
            res.bad(a["where"], a["func"], "inline assembly: " + a["text"][:60], cfg(tag))
        for e in r["ext"]:
            n = e["name"]
            names.add(n)
            for x in e["sites"]:
                sites += 1
                res.obl += 1
                if n in ("llvm.trap", "llvm.ubsantrap") or n in FATAL:
                    fatal.add((x["where"], x["func"], n)); res.dis += 1
                elif PURE.match(n) or CIPHER.match(n):
                    res.dis += 1
                elif n in DEVICE:
                    if not x["where"].startswith("random/"):
                        res.bad(x["where"], x["func"], "%s used outside the random source" % n, cfg(tag))
                    elif n in ("open", "open64") and not (x["direct"] and x["args"][0] in ("str:/dev/urandom", "str:/dev/random") and x["args"][1].lstrip("-").isdigit() and (int(x["args"][1]) & 0o1103) == 0):
                        res.bad(x["where"], x["func"], "%s(%s): only the system's random device may be opened, for reading" % (n, ", ".join(x["args"])), cfg(tag))
                    elif n == "fopen" and not (x["direct"] and x["args"][0] in ("str:/dev/urandom", "str:/dev/random") and x["args"][1] in ("str:r", "str:rb")):
                        res.bad(x["where"], x["func"], "%s(%s): only the system's random device may be opened, for reading" % (n, ", ".join(x["args"])), cfg(tag))
                    else:
                        res.dis += 1
                else:
                    res.bad(x["where"], x["func"], "the library calls %s, which acts on more than its results" % n, cfg(tag))
    # the fatal functions: never reached by any operation on any input while OpenSSL succeeds
    ks = []
    if fatal:
        ks = run.run_tasks(kem_tasks(mods, keep=lambda n, o, g: True))
        for t, r in kem_recs(ks):
            if r["kind"] != "kem":
                continue
            res.obl += 1
            if r["run"] == "aborted":
                f = [f for f in r["findings"] if f["cls"] in ("condabort", "abort", "extcall")] or [{"where": r["where"], "func": r["entry"]}]
                res.bad(f[-1]["where"], f[-1]["func"], "%s ends the process although OpenSSL did not fail" % r["entry"], cfg(t.tag))
            elif any(f["cls"] == "condabort" for f in r["findings"]):
                f = [f for f in r["findings"] if f["cls"] == "condabort"][0]
                res.bad(f["where"], f["func"], "%s may end the process although OpenSSL did not fail: %s" % (r["entry"], f["msg"]), cfg(t.tag))
            elif any(f["cls"] == "extcall" and any(n in f["msg"] for n in FATAL) for f in r["findings"]):
                f = [f for f in r["findings"] if f["cls"] == "extcall"][0]
                res.bad(f["where"], f["func"], f["msg"], cfg(t.tag))
            else:
                res.dis += 1
        stuck(res, ks, False, "absence of abnormal ends")
    if names & ALLOC:      # what is allocated is released: on success, when the random source fails, and inside the hash functions
        if not fatal:
            ks = run.run_tasks(kem_tasks(mods))
        ls = run.run_tasks(kem_tasks(mods, ("kp", "enc"), "rand", keep=lambda n, o, g: n == 640 or tier == "thorough") + shake_tasks(mods, "kem"))
        for t in ks + ls:
            for r in t.recs:
                res.obl += 1
                for f in r.get("findings", []):
                    if f["cls"] == "leak":
                        res.bad(f["msg"].split(" ")[0].replace("heap@", ""), r.get("entry", f["func"]), "[leak] " + f["msg"] + (" after a failure of the random source" if r["kind"] == "randfail" else ""), cfg(t.tag))
                        break
                else:
                    res.dis += 1
    st = stats(ks); st.pop("functions", None); st.pop("functions_analysed", None)
    return res.finish("every use of an external function in every function of the library: pure memory functions, the cipher, and (in the random source only) opening and reading the random device are allowed; abort and error printing are allowed where no operation reaches them for any input while OpenSSL succeeds; blocks of memory an operation allocates are released when it returns",
                      external_functions=sorted(names), call_sites=sites, fatal_sites=[" ".join(x) for x in sorted(fatal)], functions_analysed=len(nf), functions=sorted(nf), configurations=len(mods), **st)

def c20(tier):
    res = Result("proof")
    d = run.irdir()
    ms = dict(ir.be_modules(d))
    ms.update(ir.be_modules(d, ir.SIZES if tier == "thorough" else (640,), ("be-nomacro",)))
    ks = []
    for (n, o, g, v), bc in ms.items():
        for a in APIS:
            ks.append(Task(["kem", n, "SHAKE" if g == "SHAKE" else "AES", a + ":main", bc], W[n] * OW[o], (n, o, g, v, a), 0.6))
    ps = [Task(["shake", "kem" if tier == "quick" else "thorough", ms[(640, o, "SHAKE", "be")]], 6, ("shake", o, "be")) for o in ("REFERENCE", "FAST_GENERIC")]
    ps += [Task(["aes", "quick", ms[(640, o, "AES-own", "be")]], 3, ("aes", o, "be")) for o in ("REFERENCE", "FAST_GENERIC")]
    want = lambda w: not w.startswith("AES256") and not w.startswith("aes256")
    run.run_tasks(ks + ps, bail=lambda r: nonconforming(r, want))
    conformance(res, ks)
    primitives(res, ps, want)
    return res.finish("the sources compiled for a big-endian machine (powerpc64): one obligation per output byte and status of each operation, equal to the specification's byte, i.e. to what the little-endian builds produce; hash and cipher routines compared with FIPS 202 / FIPS 197 on the same big-endian code; also with config.h's fallback for compilers without __BYTE_ORDER__",
                      configurations=len(ks), **stats(ks + ps))

def c23(tier):
    res = Result("proof")
    keys = []
    for t in ir.TARGETS:
        for n in ir.SIZES:
            for o in ir.OPTS if t == "windows" else ir.OPTS[:2]:
                for g in ("AES-own", "SHAKE"):
                    if tier == "thorough" or n == 640 or (t in ("x86-32", "windows") and o == ("FAST_GENERIC" if t == "x86-32" else "FAST")):
                        keys.append((n, o, g, t))
    ms, failed = ir.target_modules(run.irdir(), keys)
    if failed:
        lost = {k[3] for k in failed}
        if lost - {"windows"} or len(lost) == len(ir.TARGETS):
            raise CheckError("does not compile for %s: %s" % (sorted(lost), list(failed.values())[0][-600:]))
        ms = {k: v for k, v in ms.items() if k[3] not in lost}
    ks = [Task(["kem", n, "SHAKE" if g == "SHAKE" else "AES", a + ":main", bc], W[n] * OW[o], (n, o, g, t, a), 0.6) for (n, o, g, t), bc in ms.items() for a in APIS]
    ps = []
    for (n, o, g, t), bc in ms.items():
        if n == 640 and g == "SHAKE":
            ps.append(Task(["shake", "kem" if tier == "quick" else "thorough", bc], 6, ("shake", o, t)))
        elif n == 640:
            ps.append(Task(["aes", "quick", bc], 3, ("aes", o, t)))
    want = lambda w: not w.startswith("AES256") and not w.startswith("aes256")
    run.run_tasks(ks + ps, bail=lambda r: nonconforming(r, want))
    conformance(res, ks)
    primitives(res, ps, want)
    return res.finish("the sources compiled for 32-bit x86, 32-bit ARM, 64-bit ARM and 64-bit Windows (other sizes of pointers, size_t and long, unsigned plain char, other attributes and preprocessor branches): one obligation per output byte and status of each operation, equal to the specification's byte, i.e. to what the x86-64 builds produce; hash and cipher routines compared with FIPS 202 / FIPS 197 on the same code",
                      configurations=len(ks), targets=sorted({k[3] for k in ms}), not_compiled=sorted({k[3] for k in failed}), **stats(ks + ps))

STACK = {"REFERENCE": 4 << 20, "FAST_GENERIC": 512 << 10, "FAST": 512 << 10}
def c24(tier):
    res = Result("proof")
    mods = the_modules()
    ks = kem_tasks(mods)
    ps = shake_tasks(mods, "kem" if tier == "quick" else "thorough") + aes_tasks(mods)
    run.run_tasks(ks + ps)
    sub = {}      # deepest hash or cipher routine of each flavour, which the operations' analyses take as one step
    for t in ps:
        for r in t.recs:
            if r.get("kind") == "prim":
                res.obl += 1
                res.dis += r["stuck"] == 0
                if r["stuck"]:
                    res.bad(r["mismatch"][0]["where"] if r["mismatch"] else "-", r["what"], "termination not established: " + (r["mismatch"][0]["msg"] if r["mismatch"] else "analysis did not end"), cfg(t.tag))
                if r["stack"] > sub.get(t.tag[1], (0,))[0]:
                    sub[t.tag[1]] = (r["stack"], r["stackFn"], r["stackAt"])
    peaks = {}
    for t, r in kem_recs(ks):
        if r["kind"] != "kem":
            continue
        o = t.tag[1]
        need = r["stack"] + sub.get(o, (0,))[0]
        peaks[o] = max(peaks.get(o, 0), need)
        res.obl += 2
        res.dis += 1
        if need <= STACK[o]:
            res.dis += 1
        else:
            res.bad(r["stackAt"], r["stackFn"], "[stack] %s needs %d bytes of local variables on the call chain ending here (allowed: %d)" % (r["entry"], need, STACK[o]), cfg(t.tag))
    stuck(res, ks, True, "termination")
    return res.finish("every operation's abstract run reaches its return with all loops bounded by known values (both sides of data-dependent branches); the sizes of local arrays on each call chain are added up, the deepest hash or cipher routine on top, and compared with the limit of the build flavour",
                      configurations=len(ks), deepest_stack={k: v for k, v in sorted(peaks.items())}, deepest_leaf={k: v[0] for k, v in sorted(sub.items())}, **stats(ks + ps))

# ---------------------------------------------------------------- the Python reference
def py_tasks(apis=APIS, sizes=ir.SIZES, gens=("AES", "SHAKE")):
    from . import pyast
    src = os.path.join(ir.REPO, "python3")
    tree = os.path.join(run.irdir(), "python.json")
    if not os.path.exists(tree):
        with open(tree + ".tmp%d" % os.getpid(), "w") as f:
            f.write(pyast.export(src))
        os.rename(tree + ".tmp%d" % os.getpid(), tree)
    return [Task(["py", n, g, a, tree], W[n], ("python", n, g, a), 2.0) for n in sizes for g in gens for a in apis]

def py_stats(ts):
    s = {"analyses": 0, "steps": 0, "joins": 0, "hash_calls": 0, "cipher_calls": 0}
    fn = set()
    for t in ts:
        for r in t.recs:
            if "steps" in r:
                s["analyses"] += 1
                for k, v in (("steps", "steps"), ("joins", "joins"), ("hash_calls", "hashes"), ("cipher_calls", "blocks")):
                    s[k] += r[v]
                fn.update(r["funcs"])
    s["functions_analysed"] = len(fn)
    s["functions"] = sorted(fn)
    s["samples"] = [{"task": cfg(t.tag), "wall_s": round(t.wall, 1), "steps": sum(r.get("steps", 0) for r in t.recs)} for t in ts[:4]]
    return s

def py_conformance(res, ts):
    for t in ts:
        for r in t.recs:
            if r.get("kind") != "py":
                continue
            c = cfg(t.tag)
            res.obl += max(r["bytes"], 1)
            if r["run"] == "unsupported":
                raise CheckError("%s %s: construct outside the analysed subset: %s" % (r["where"], r["func"], r["msg"]))
            if r["run"] == "raised":
                res.bad(r["where"], r["func"], "%s raises on a well-formed input: %s" % (r["entry"], r["msg"]), c)
            elif r["run"] != "returned":
                res.bad(r["where"], r["func"], "%s: result not established: %s" % (r["entry"], r["msg"]), c)
            else:
                res.dis += r["bytes"] - r["bad"]
                for m in r["mismatch"]:
                    res.bad(r["where"], r["entry"], "%s[%d] %s" % (m["buf"], m["byte"], m["msg"]), c)
                if r["bad"] and not r["mismatch"]:
                    res.bad(r["where"], r["entry"], "%d output bytes differ" % r["bad"], c)

def c19(tier):
    res = Result("proof")
    ts = run.run_tasks(py_tasks())
    py_conformance(res, ts)
    return res.finish("one obligation per output byte of each operation of each variant: the value number of the Python expression (integers modelled exactly, both sides of data-dependent branches joined) equals that of the specification's expression over the same inputs", configurations=len(ts), **py_stats(ts))

# ---------------------------------------------------------------- published sizes and parameters
SPEC = {640: dict(pk=9616, sk=19888, ct=9720, ss=16, n=640, q=1 << 15, D=15, B=2, nbar=8, mbar=8, seedA=16, z=16, sec=16, cdf=(4643, 13363, 20579, 25843, 29227, 31145, 32103, 32525, 32689, 32745, 32762, 32766, 32767)),
        976: dict(pk=15632, sk=31296, ct=15744, ss=24, n=976, q=1 << 16, D=16, B=3, nbar=8, mbar=8, seedA=16, z=16, sec=24, cdf=(5638, 15915, 23689, 28571, 31116, 32217, 32613, 32731, 32760, 32766, 32767)),
        1344: dict(pk=21520, sk=43088, ct=21632, ss=32, n=1344, q=1 << 16, D=16, B=4, nbar=8, mbar=8, seedA=16, z=16, sec=32, cdf=(9142, 23462, 30338, 32361, 32725, 32765, 32767))}

def header_witness(res, d):
    """a translation unit per parameter set that sees the published header only and does not compile unless it says what the specification says"""
    import subprocess
    hd = os.path.join(d, "witness-%d" % os.getpid())
    os.makedirs(hd, exist_ok=True)
    n_wit = 0
    for n, P in SPEC.items():
        h = "api_frodo%d.h" % n
        U, C = "unsigned char *", "const unsigned char *"
        w = [("CRYPTO_%s == %d" % (k, P[v]), "CRYPTO_%s is not %d" % (k, P[v])) for k, v in (("PUBLICKEYBYTES", "pk"), ("SECRETKEYBYTES", "sk"), ("CIPHERTEXTBYTES", "ct"), ("BYTES", "ss"))]
        for f, a in (("keypair", (U, U)), ("enc", (U, U, C)), ("dec", (U, C, C))):
            w.append(("_Generic(&crypto_kem_%s_Frodo%d, int (*)(%s): 1, default: 0)" % (f, n, ", ".join(a)), "crypto_kem_%s_Frodo%d is not declared with the documented type" % (f, n)))
        p = os.path.join(hd, "w%d.c" % n)
        with open(p, "w") as fh:
            fh.write('#include "%s"\n' % h + "".join('_Static_assert(%s, "witness: %s");\n' % x for x in w))
        r = subprocess.run([ir.CLANG, "-std=gnu11", "-fsyntax-only", "-fno-color-diagnostics", "-Werror=implicit-function-declaration", "-ferror-limit=0", "-I", ir.SRC, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        n_wit += len(w)
        res.obl += len(w)
        bad = [l for l in r.stdout.splitlines() if "error:" in l]
        for l in bad:
            m = re.search(r"witness: ([^\"]*)", l)
            res.bad("%s:1" % h if m or "w%d.c" % n in l else os.path.basename(l.split(":")[0]) + ":" + l.split(":")[1], "-", m.group(1) if m else l.split("error:")[1].strip())
        if r.returncode and not bad:
            raise CheckError("header witness for %d: %s" % (n, r.stdout[-500:]))
        res.dis += len(w) - len(bad)
    import shutil
    shutil.rmtree(hd, ignore_errors=True)
    return n_wit

def public_names(res, mods):
    import shutil as sh, subprocess
    nm = sh.which("llvm-nm-18") or sh.which("llvm-nm") or "/usr/lib/llvm-18/bin/llvm-nm"
    for (n, o, g), bc in mods.items():
        syms = {l.split()[-1]: l.split()[-2] for l in ir.run([nm, bc]).splitlines() if len(l.split()) >= 2}
        for f in ("keypair", "enc", "dec"):
            for m in ir.SIZES:
                s = "crypto_kem_%s_Frodo%d" % (f, m)
                res.obl += 1
                if (m == n) != (syms.get(s) in ("T", "W")):
                    res.bad("frodo%d.c:1" % n, s, "the library for FrodoKEM-%d %s %s" % (n, "does not define" if m == n else "defines", s), cfg((n, o, g)))
                else:
                    res.dis += 1

PYPAR = (("len_pk_bytes", "pk", True), ("len_sk_bytes", "sk", True), ("len_ct_bytes", "ct", True), ("len_ss_bytes", "ss", True), ("n", "n", False), ("q", "q", False), ("nbar", "nbar", False), ("mbar", "mbar", False), ("B", "B", False), ("D", "D", False),
         ("len_seedA_bytes", "seedA", False), ("len_z_bytes", "z", False)) + tuple((k, "sec", False) for k in ("len_mu_bytes", "len_seedSE_bytes", "len_s_bytes", "len_k_bytes", "len_pkh_bytes"))

def c18(tier):
    res = Result("proof")
    d = run.irdir()
    wit = header_witness(res, d)
    mods = the_modules()
    public_names(res, mods)
    if res.violations and any(v["func"].startswith("crypto_kem_") for v in res.violations):
        return res.finish("published names and sizes", configurations=len(mods))
    ks = kem_tasks(mods, keep=lambda n, o, g: tier == "thorough" or o == "REFERENCE" and g != "AES-ossl" or o == "FAST" and g == "SHAKE")
    hs = help_tasks(mods, tier)
    ps = py_tasks(("params",))
    run.run_tasks(ks + hs + ps)
    ARG = re.compile(r"\b(pk|sk|ct|ss)\b")
    for t, r in kem_recs(ks):
        if r["kind"] != "kem":
            continue
        n, _, _, a = t.tag
        P, c = SPEC[n], cfg(t.tag)
        res.obl += r["bytes"] + 1
        res.dis += r["bytes"] + 1
        for f in r["findings"]:
            if f["cls"] in ("oob", "inputwrite", "outread") and ARG.search(f["msg"]):
                res.bad(f["where"], f["func"], "[%s] %s" % (f["cls"], f["msg"]), c)
        if r["run"] != "returned":
            continue
        for m in r["mismatch"]:
            if "never written" in m["msg"]:
                res.bad(r["where"], r["entry"], "output %s[%d] is never written" % (m["buf"], m["byte"]), c)
        want = {"kp": 2 * P["sec"] + P["z"], "enc": P["sec"], "dec": 0}[a]
        if r["randBytes"] != want:
            res.bad(r["draws"][0][1] if r["draws"] else r["where"], r["entry"], "%d random bytes are used, the seeds have %d" % (r["randBytes"], want), c)
    primitives(res, hs, lambda w: w in ("sample", "encode", "decode"))
    stuck(res, ks, False, "extents")
    for t in ps:
        for r in t.recs:
            if r.get("kind") != "py":
                continue
            if r["run"] != "returned":
                if r["run"] == "unsupported":
                    raise CheckError("%s: %s" % (r["where"], r["msg"]))
                res.bad(r["where"], r["func"], "the parameters are not established: " + r["msg"], cfg(t.tag))
                continue
            P, got = SPEC[t.tag[1]], r["params"]
            for k, v, must in PYPAR:
                if k in got or must:
                    res.obl += 1
                    if got.get(k) != str(P[v]):
                        res.bad("python3/frodokem.py:1", "FrodoKEM-%s-%s" % t.tag[1:3], "%s is %s, the C library and the specification have %s" % (k, got.get(k, "missing"), P[v]), cfg(t.tag))
                    else:
                        res.dis += 1
            if got.get("T_chi"):
                res.obl += len(P["cdf"])
                if got["T_chi"] != ",".join(map(str, P["cdf"])):
                    res.bad("python3/frodokem.py:1", "FrodoKEM-%s-%s" % t.tag[1:3], "the noise table T_chi differs from the C library's and the specification's: %s" % got["T_chi"], cfg(t.tag))
                else:
                    res.dis += len(P["cdf"])
    return res.finish("compile-fail witnesses over the published headers (sizes, prototypes); every library defines exactly its own three public names; each operation, with caller buffers of exactly the published sizes, stays inside them, fills them and draws exactly the specified seed lengths; the sampler equals the specified table on all words; the Python reference's size and parameter attributes, evaluated from its syntax tree, equal the same table",
                      witnesses=wit, configurations=len(ks) + len(ps), **stats(ks + hs))

DFR = {640: -138.0, 976: -199.0, 1344: -252.0}
def c21(tier):
    res = Result("proof")
    mods = the_modules()
    ks = kem_tasks(mods)
    ps = shake_tasks(mods, "kem") + aes_tasks(mods)
    hs = help_tasks(mods, tier)
    ds = [Task(["dfr", n], 4, ("dfr", n)) for n in ir.SIZES]
    run.run_tasks(ks + ps + hs + ds, bail=lambda r: nonconforming(r, lambda w: w.startswith(("shake", "Keccak", "AES128", "aes128")) or w in ("sample", "encode", "decode")))
    conformance(res, ks)
    primitives(res, ps, lambda w: not w.startswith("AES256") and not w.startswith("aes256"))
    primitives(res, hs, lambda w: w in ("sample", "encode", "decode"))
    b = {}
    for t in ds:
        for r in t.recs:
            res.obl += r["decode_cases"] + 1
            if r["decode_wrong"]:
                raise CheckError("the specification's decoding does not have the stated tolerance")
            if r["log2_bound"] > DFR[r["n"]]:
                raise CheckError("the specification's failure bound 2^%.2f for %d is larger than claimed" % (r["log2_bound"], r["n"]))
            res.dis += r["decode_cases"] + 1
            b[str(r["n"])] = {"log2_bound": r["log2_bound"], "products_convolved": r["products"], "relative_error": r["relative_error"]}
    res.assumptions.append("SHAKE outputs are modelled as independent uniform words (random-oracle idealisation)")
    return res.finish("sufficient condition: sampler, encoding, decoding and the three operations equal the specification's functions (one obligation per output byte / input word), and for the specification the distribution of one element of the decryption error is computed exactly (2N products and one noise term convolved modulo q), its mass outside the decoding interval times 64 is the bound",
                      failure_bound=b, configurations=len(ks), **stats(ks + ps + hs))

CHECKS = {"C01": conf_check("kp"), "C02": conf_check("enc"), "C03": conf_check("dec"), "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C23": c23, "C24": c24}
