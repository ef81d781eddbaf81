"""Compiles /repo's current sources to LLVM IR, one module per configuration of the project's build matrix."""
import hashlib, os, re, subprocess, shutil, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
CLANG = shutil.which("clang-18") or shutil.which("clang")
LINK = shutil.which("llvm-link-18") or shutil.which("llvm-link") or "/usr/lib/llvm-18/bin/llvm-link"
OPT = shutil.which("opt-18") or shutil.which("opt") or "/usr/lib/llvm-18/bin/opt"
SIZES = (640, 976, 1344)
OPTS = ("REFERENCE", "FAST_GENERIC", "FAST")
GENS = ("AES-ossl", "AES-own", "SHAKE")

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def tree_hash():
    h = hashlib.sha256()
    for base in (SRC, os.path.join(REPO, "python3"), os.path.join(VERIF, "engine"), os.path.join(VERIF, "stubs"), os.path.join(VERIF, "vlib"), os.path.join(VERIF, "tests_hdr")):
        for d, ds, fs in os.walk(base):
            ds.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for p in (os.path.join(REPO, "Makefile"),):
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def flags(opt, gen):
    f = ["-DNIX", "-D_AMD64_", "-D_%s_" % opt, "-D_SHAKE128_FOR_A_" if gen == "SHAKE" else "-D_AES128_FOR_A_",
         "-DNO_OPENSSL" if gen == "AES-own" else "-D_USE_OPENSSL_", "-std=gnu11"]
    if opt == "FAST":
        f += ["-mavx2", "-maes", "-msse2"]
    return f

def sources(n, opt, gen):
    s = ["frodo%d.c" % n, "util.c", "aes/aes.c", "aes/aes_c.c", "sha3/fips202.c", "random/random.c"]
    if opt == "FAST":
        s += ["aes/aes_ni.c"]
        if gen == "SHAKE":
            s += ["sha3/fips202x4.c", "sha3/keccak4x/KeccakP-1600-times4-SIMD256.c"]
    return [os.path.join(SRC, x) for x in s]

BASE = ["-c", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-w"]

def module(name, srcs, fl, outdir, passes="sroa,early-cse", base=BASE):
    """compile srcs, link, clean up; returns the path of the module"""
    out = os.path.join(outdir, name + ".bc")
    if os.path.exists(out):
        return out
    tmp = os.path.join(outdir, name + ".d")
    os.makedirs(tmp, exist_ok=True)
    objs = []
    for i, s in enumerate(srcs):
        o = os.path.join(tmp, "%d_%s.bc" % (i, os.path.basename(s)))
        run([CLANG] + base + fl + [s, "-o", o], cwd=SRC)
        objs.append(o)
    run([LINK] + objs + ["-o", os.path.join(tmp, "l.bc")])
    run([OPT, "-passes=" + passes, os.path.join(tmp, "l.bc"), "-o", out + ".tmp"])
    os.rename(out + ".tmp", out)
    shutil.rmtree(tmp)
    return out

def kem_module(n, opt, gen, outdir):
    return module("k%d_%s_%s" % (n, opt, gen), sources(n, opt, gen), flags(opt, gen), outdir)

def all_kem(outdir, sizes=SIZES, opts=OPTS, gens=GENS):
    os.makedirs(outdir, exist_ok=True)
    keys = [(n, o, g) for n in sizes for o in opts for g in gens]
    with ThreadPoolExecutor(8) as ex:
        r = list(ex.map(lambda k: kem_module(*k, outdir), keys))
    return dict(zip(keys, r))

# ---------------------------------------------------------------- left shifts on signed operands
def signed_shifts(outdir, opts=OPTS, gens=GENS):
    """places (file:line:column) where the front end knows a left shift to be one on a signed type: the IR's shl does not tell.
    clang is asked to guard exactly those (the guarded code is only read for the places)"""
    p = os.path.join(outdir, "shifts.txt")
    if os.path.exists(p):
        return p
    jobs = sorted({(s, tuple(flags(o, g))) for o in opts for g in gens for s in sources(640, o, g)})
    def one(j):
        ll = run([CLANG, "-S", "-emit-llvm", "-O0", "-g", "-fno-discard-value-names", "-w", "-fsanitize=shift-base", "-fsanitize-trap=shift-base"] + list(j[1]) + [j[0], "-o", "-"], cwd=SRC)
        guarded, total = {}, {}
        for l in ll.splitlines():
            m = re.match(r"\s+%(\S+) = (lshr|shl) .*!dbg (!\d+)", l)
            if m and m.group(2) == "shl":
                total[m.group(3)] = total.get(m.group(3), 0) + 1
            elif m and m.group(1).startswith("shl.check"):
                guarded[m.group(3)] = guarded.get(m.group(3), 0) + 1
        md = dict(re.findall(r"^(!\d+) = (?:distinct )?(!DI\w+\(.*\))$", ll, re.M))
        def fileof(n, depth=0):
            x = md.get(n, "")
            f = re.search(r"file: (!\d+)", x)
            if f:
                return os.path.basename(re.search(r'filename: "([^"]*)"', md[f.group(1)]).group(1))
            s = re.search(r"scope: (!\d+)", x)
            return fileof(s.group(1), depth + 1) if s and depth < 20 else "?"
        yes, no = set(), set()
        for n, t in total.items():
            m = re.search(r"line: (\d+)(?:, column: (\d+))?", md[n])
            (yes if guarded.get(n, 0) == t else no).add("%s:%s:%s" % (fileof(n), m.group(1), m.group(2) or 0))
        return yes, no
    with ThreadPoolExecutor(8) as ex:
        r = list(ex.map(one, jobs))
    out = set().union(*[y for y, _ in r]) - set().union(*[n for _, n in r])
    with open(p + ".tmp", "w") as f:
        f.write("\n".join(sorted(out)) + "\n")
    os.rename(p + ".tmp", p)
    return p

# ---------------------------------------------------------------- link-time-optimised builds
NM = shutil.which("llvm-nm-18") or shutil.which("llvm-nm") or "/usr/lib/llvm-18/bin/llvm-nm"
KEEP_CALL = re.compile(r"^(shake|cshake|keccak|Keccak|AES|aes|randombytes|frodo_mul_)")       # modelled functions and those with their own erasure rule stay calls

def lto_module(n, opt, gen, outdir):
    """-O3 per file, then clang's link-time optimisation pipeline over the whole library"""
    out = os.path.join(outdir, "lto%d_%s_%s.bc" % (n, opt, gen))
    if os.path.exists(out):
        return out
    tmp = out + ".d"
    os.makedirs(tmp, exist_ok=True)
    objs = []
    for i, s in enumerate(sources(n, opt, gen)):
        o = os.path.join(tmp, "%d.bc" % i)
        run([CLANG, "-c", "-flto", "-O3", "-g", "-w"] + flags(opt, gen) + [s, "-o", o], cwd=SRC)
        objs.append(o)
    l = os.path.join(tmp, "l.bc")
    run([LINK] + objs + ["-o", l])
    names = [x.split()[-1] for x in run([NM, "--defined-only", l]).splitlines() if x.split()]
    run([OPT, "-passes=forceattrs,lto<O3>"] + ["--force-attribute=%s:noinline" % x for x in names if KEEP_CALL.match(x)] + [l, "-o", out + ".tmp"])
    os.rename(out + ".tmp", out)
    shutil.rmtree(tmp)
    return out

def all_lto(outdir, sizes=SIZES, opts=OPTS, gens=GENS):
    os.makedirs(outdir, exist_ok=True)
    keys = [(n, o, g) for n in sizes for o in opts for g in gens]
    with ThreadPoolExecutor(8) as ex:
        r = list(ex.map(lambda k: lto_module(*k, outdir), keys))
    return dict(zip(keys, r))

# ---------------------------------------------------------------- big-endian builds
STUBS = ["-ffreestanding", "-isystem", os.path.join(VERIF, "stubs", "c"), "-idirafter", "/usr/include", "-idirafter", "/usr/include/x86_64-linux-gnu"]      # the installed headers only for what the stubs lack
BE = ["--target=powerpc64-unknown-linux-gnu"] + STUBS
BE_VARIANTS = {"be": [], "be-nomacro": ["-U__BYTE_ORDER__", "-U_AMD64_", "-D_ARM_"]}     # the second one selects config.h's portable fallback

def be_modules(outdir, sizes=SIZES, variants=("be",)):
    os.makedirs(outdir, exist_ok=True)
    keys = [(n, o, g, v) for n in sizes for o in ("REFERENCE", "FAST_GENERIC") for g in ("AES-own", "SHAKE") for v in variants]
    def one(k):
        n, o, g, v = k
        return module("be%d_%s_%s_%s" % k, [x for x in sources(n, o, g)], [f for f in flags(o, g) if f != "-D_USE_OPENSSL_"] + (["-DNO_OPENSSL"] if g == "SHAKE" else []) + BE + BE_VARIANTS[v], outdir)
    with ThreadPoolExecutor(8) as ex:
        return dict(zip(keys, ex.map(one, keys)))

# ---------------------------------------------------------------- other supported processors and data models
TARGETS = {"x86-32": ["--target=i686-unknown-linux-gnu", "-U_AMD64_", "-D_X86_"],                                   # 32-bit pointers, long, size_t
           "arm-32": ["--target=armv7-unknown-linux-gnueabihf", "-U_AMD64_", "-D_ARM_"],                            # the same, plain char unsigned
           "arm-64": ["--target=aarch64-unknown-linux-gnu", "-U_AMD64_", "-D_ARM_"],                                # plain char unsigned
           "windows": ["--target=x86_64-pc-windows-msvc", "-UNIX", "-DWINDOWS", "-fms-extensions", "-isystem", os.path.join(VERIF, "stubs", "win")]}     # long 32 bits, pointers 64; other attributes

def target_modules(outdir, keys):
    """keys: (n, opt, gen, target); returns modules and what does not compile"""
    os.makedirs(outdir, exist_ok=True)
    def one(k):
        n, o, g, t = k
        try:
            return module("t%d_%s_%s_%s" % k, sources(n, o, g), [f for f in flags(o, g) if f != "-D_USE_OPENSSL_"] + (["-DNO_OPENSSL"] if g == "SHAKE" else []) + STUBS + TARGETS[t], outdir)
        except BuildError as e:
            return e
    with ThreadPoolExecutor(8) as ex:
        r = dict(zip(keys, ex.map(one, keys)))
    return {k: v for k, v in r.items() if not isinstance(v, BuildError)}, {k: str(v) for k, v in r.items() if isinstance(v, BuildError)}
