"""C11: abstract interpretation of the random source in the polyhedral domain of poly.py.
Ghost variables: N = requested length, F = length of the prefix of the buffer filled with bytes from the system generator.
Obligations: every return of status 0 happens with F >= N; every write of the generator stays inside [0, N)."""
import os, re
from . import ir
from .run import CheckError
from .poly import Poly, add, scale

INT = re.compile(r"^i(\d+)$")
PATHS = ("/dev/urandom", "/dev/random")

class Ins:
    __slots__ = ("res", "op", "ty", "a", "line", "txt")

def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{<": d += 1
        if ch in ")]}>": d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def arg_val(a):
    """'i32 noundef %x' -> ('i32', '%x')"""
    t = a.split()
    return t[0], t[-1]

class Mod:
    def __init__(self, text):
        self.strs, self.ginit, self.gconst, self.funcs, self.lines = {}, {}, set(), {}, {}
        for m in re.finditer(r'^(@[\w.$]+) = [^\n]*?constant \[\d+ x i8\] c"([^"]*)"', text, re.M):
            self.strs[m.group(1)] = re.sub(r"\\([0-9A-Fa-f]{2})", lambda x: chr(int(x.group(1), 16)), m.group(2)).split("\0")[0]
        for m in re.finditer(r"^(@[\w.$]+) = ([^\n]*?)(global|constant) (i\d+|ptr) (-?\d+|null|zeroinitializer)", text, re.M):
            v = m.group(5)
            self.ginit[m.group(1)] = int(v) if re.match(r"-?\d+$", v) else 0
            if m.group(3) == "constant": self.gconst.add(m.group(1))
        for m in re.finditer(r"^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)", text, re.M):
            self.lines[m.group(1)] = int(m.group(2))
        for m in re.finditer(r"^define ([^\n]*?)@([\w.$]+)\(([^\n]*?)\)[^\n]*\{\n(.*?)^\}", text, re.M | re.S):
            self.funcs[m.group(2)] = (m.group(3), m.group(4))

    def parse(self, name):
        sig, body = self.funcs[name]
        params = [arg_val(a) for a in split_args(sig)]
        blocks, order, cur = {}, [], None
        lines = body.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]; i += 1
            if not l.strip() or l.strip().startswith(";") or l.strip().startswith("#dbg"): continue
            m = re.match(r'^([\w.$-]+|"[^"]+"):', l)
            if m:
                cur = m.group(1).strip('"'); blocks[cur] = []; order.append(cur); continue
            if cur is None:
                cur = "entry"; blocks[cur] = []; order.append(cur)
            s = l.strip()
            if s.startswith("switch") and "]" not in s:
                while "]" not in lines[i]: s += " " + lines[i].strip(); i += 1
                s += " " + lines[i].strip(); i += 1
            n = Ins()
            d = re.search(r"!dbg !(\d+)", s); n.line = self.lines.get(d.group(1), 0) if d else 0
            s = re.sub(r",? *![\w.]+ (?:!\d+|!\{[^}]*\})", "", s); s = re.sub(r" #\d+$", "", s)
            n.txt = s; n.res = None
            m = re.match(r"^(%[\w.$-]+|%\"[^\"]+\") = (.*)$", s)
            if m: n.res, s = m.group(1), m.group(2)
            s = re.sub(r"^(tail|musttail|notail) ", "", s)
            n.op = s.split()[0]; n.a = s[len(n.op):].strip(); n.ty = None
            blocks[cur].append(n)
        return params, blocks, order

def width(t):
    m = INT.match(t or "")
    return int(m.group(1)) if m else 64 if t == "ptr" else None

class Analysis:
    def __init__(self, mod, fname, trusted_globals, where):
        self.m, self.fname, self.tg, self.where = mod, fname, trusted_globals, where
        self.params, self.blocks, self.order = mod.parse(fname)
        self.bad, self.obl, self.fresh, self.recording = [], 0, 0, False
        self.calls, self.badglobals = set(), set()
        self.tys = {}
        self.cfg()

    # ------------------------------------------------------------ structure
    def cfg(self):
        self.succ = {}
        for b in self.order:
            if not self.blocks[b]: self.succ[b] = []; continue
            t = self.blocks[b][-1]
            self.succ[b] = [x.strip('"') for x in re.findall(r'label %("[^"]+"|[\w.$-]+)', t.txt)]
        seen, self.rpo, self.heads, stack = set(), [], set(), set()
        def dfs(b):
            seen.add(b); stack.add(b)
            for s in self.succ[b]:
                if s in stack: self.heads.add(s)
                elif s not in seen: dfs(s)
            stack.discard(b); self.rpo.append(b)
        dfs(self.order[0]); self.rpo.reverse()
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]: self.pred[s].append(b)
        # liveness
        use, de, phiuse = {}, {}, {}
        for b in self.rpo:
            u, d = set(), set()
            for n in self.blocks[b]:
                names = set(re.findall(r'%(?:"[^"]+"|[\w.$-]+)', n.a)) if n.op not in ("br", "switch") else set(re.findall(r'%(?:"[^"]+"|[\w.$-]+)', re.sub(r"label %(?:\"[^\"]+\"|[\w.$-]+)", "", n.a)))
                if n.op == "phi":
                    for v, l in re.findall(r"\[ *([^,\]]+), *%([^\]]+?) *\]", n.a):
                        if v.startswith("%"): phiuse.setdefault(l.strip('"'), set()).add(v)
                else: u |= names - d
                if n.res: d.add(n.res)
            use[b], de[b] = u, d
        self.live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set(phiuse.get(b, set()))
                for s in self.succ[b]: o |= self.live[s]
                i = use[b] | (o - de[b])
                if i != self.live[b]: self.live[b] = i; ch = True

    # ------------------------------------------------------------ helpers
    def rng(self, p, v, w):
        if w == 1: p.ge0({v: 1}); p.ge0({v: -1, 1: 1})
        elif w: p.ge0({v: 1, 1: 1 << (w - 1)}); p.ge0({v: -1, 1: (1 << (w - 1)) - 1})
    def havoc(self, p, v, ty):
        p.forget(v); self.rng(p, v, width(ty))
    def val(self, p, ty, x):
        """(linear expression, kind)"""
        if re.match(r"^-?\d+$", x): return ({1: int(x)} if int(x) else {}), None
        if x in ("null", "zeroinitializer"): return {}, None
        if x == "true": return {1: 1}, None
        if x == "false": return {}, None
        if x.startswith("@"): return {x + "$addr": 1}, ("sym", x)
        if x.startswith("%"):
            return {x: 1}, p.kind.get(x)
        self.fresh += 1
        f = "$f%d" % self.fresh
        self.rng(p, f, width(ty))
        return {f: 1}, None
    def setv(self, p, v, e, kind, ty):
        p.assign(v, e); p.kind.pop(v, None)
        if kind: p.kind[v] = kind
    def fit(self, p, v, e, w, kind=None):
        """v := e wrapped to w bits: exact when it fits, unknown otherwise"""
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if w == 1: lo, hi = 0, 1
        out = []
        q = p.copy(); q.ge0(add(e, {1: -lo})); q.ge0(add(scale(e, -1), {1: hi}))
        if not q.empty(): self.setv(q, v, e, kind, None); out.append(q)
        for side in (add(scale(e, -1), {1: lo - 1}), add(e, {1: -hi - 1})):
            q = p.copy(); q.ge0(side)
            if not q.empty(): q.forget(v); self.rng(q, v, w); out.append(q)
        return out
    def report(self, n, msg):
        if self.recording: self.bad.append((n.line, msg))
    def oblige(self, p, cond, n, msg):
        if self.recording:
            self.obl += 1
            if not cond: self.report(n, msg)

    # ------------------------------------------------------------ transfer
    def compare(self, p, pred, x, y):
        """list of (state, truth)"""
        d = add(x, y, -1); out = []
        def put(conds, t):
            q = p.copy()
            for c in conds: q.ge0(c)
            if not q.empty(): out.append((q, t))
        m1 = {1: -1}
        if pred == "eq" or pred == "ne":
            T = pred == "eq"
            put([d, scale(d, -1)], T); put([add(d, m1)], not T); put([add(scale(d, -1), m1)], not T)
            return out
        if pred[0] == "s":
            gt = [add(d, m1)]; ge = [d]; lt = [add(scale(d, -1), m1)]; le = [scale(d, -1)]
            T, Fs = {"sgt": (gt, le), "sge": (ge, lt), "slt": (lt, ge), "sle": (le, gt)}[pred]
            put(T, True); put(Fs, False); return out
        nn = lambda e: [e]; ng = lambda e: [add(scale(e, -1), m1)]
        gt = [add(d, m1)]; ge = [d]; lt = [add(scale(d, -1), m1)]; le = [scale(d, -1)]
        T, Fs = {"ugt": (gt, le), "uge": (ge, lt), "ult": (lt, ge), "ule": (le, gt)}[pred]
        for sx, sy in ((0, 0), (1, 1)):
            c = (ng(x) if sx else nn(x)) + (ng(y) if sy else nn(y))
            put(c + T, True); put(c + Fs, False)
        big = pred in ("ugt", "uge")
        put(ng(x) + nn(y), big); put(nn(x) + ng(y), not big)
        return out

    def fill(self, p, n, off, kind, cnt, what):
        """the generator wrote cnt bytes at buffer offset off"""
        if kind != "buf": return
        if p.entails_eq(add({"F": 1}, off, -1)): p.assign("F", add({"F": 1}, cnt))
    def bounds(self, p, n, off, kind, cnt, what):
        if kind == "buf":
            self.oblige(p, p.entails(off) and p.entails(add(add({"N": 1}, off, -1), cnt, -1)), n, "%s may write outside the requested %s" % (what, "length"))
    def clobber(self, p, off, cnt):
        """something else wrote at [off, off+cnt): the filled prefix ends there unless it lies beyond it"""
        if off is not None and p.entails(add(off, {"F": -1})): return
        p.forget("F"); p.eq0({"F": 1})

    def call(self, p, n):
        m = re.match(r"^(?:\w+ )*?(?:fastcc |noundef |signext |zeroext |dllimport |range\([^)]*\) |nonnull |noalias )*([\w.*]+|\{[^}]*\})(?: \([^)]*\))? (@[\w.$]+|%[\w.$-]+)\((.*)\)", n.a)
        if not m: raise CheckError("random source: cannot read call: " + n.txt)
        ty, fn, args = m.group(1), m.group(2).lstrip("@"), split_args(m.group(3))
        if fn.startswith("llvm.") and not fn.startswith(("llvm.mem", "llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")): 
            if n.res: self.havoc(p, n.res, ty)
            return [p]
        self.calls.add(fn)
        av = [arg_val(a) for a in args]
        v = [self.val(p, t, x) for t, x in av]
        w = width(ty)
        def res(q, lo=None, hi=None):
            if not n.res: return
            q.forget(n.res); self.rng(q, n.res, w)
            if lo is not None: q.ge0(add({n.res: 1}, lo, -1))
            if hi is not None: q.ge0(add(hi, {n.res: -1}))
        if fn in ("open", "open64"):
            k = v[0][1]
            path = self.m.strs.get(k[1]) if isinstance(k, tuple) else None
            flags = p.sub(v[1][0]); fl = flags.get(1, 0) if all(x == 1 for x in flags) else None
            res(p, {1: -1}); 
            if path in PATHS and fl is not None and (fl & 3) == 0: p.kind[n.res] = "fd"
            return [p]
        if fn == "fopen":
            path = self.m.strs.get(v[0][1][1]) if isinstance(v[0][1], tuple) else None
            mode = self.m.strs.get(v[1][1][1]) if isinstance(v[1][1], tuple) else None
            res(p, {})
            if path in PATHS and mode in ("r", "rb"): p.kind[n.res] = "file"
            return [p]
        if fn in ("read", "getrandom", "fread"):
            if fn == "fread":
                sz = p.sub(v[1][0]); szc = sz.get(1, 0) if all(x == 1 for x in sz) else None
                buf, cnt, src = v[0], v[2][0], v[3][1]
                unit = szc
            else:
                buf, cnt, unit = (v[1] if fn == "read" else v[0]), (v[2][0] if fn == "read" else v[1][0]), 1
                src = v[0][1] if fn == "read" else "fd"
            good = src in ("fd", "file") and unit
            out = []
            q = p.copy(); self.bounds(q, n, buf[0], buf[1], scale(cnt, unit or 1), fn)
            if fn != "fread":
                q = p.copy(); res(q, {1: -1}, {1: -1}); out.append(q)
            q = p.copy(); q2 = q
            if n.res: res(q, {}); q.ge0(add(cnt, {n.res: -1}))
            else: return [p]
            if not q.empty():
                if good: self.fill(q, n, buf[0], buf[1], {n.res: unit}, fn)
                elif buf[1] == "buf": self.clobber(q, buf[0], cnt)
                out.append(q)
            q = p.copy(); q.ge0(add(scale(cnt, -1), {1: -1}))      # a huge unsigned count
            if not q.empty(): res(q, {}); out.append(q)
            return out
        if fn in ("getentropy", "BCryptGenRandom", "SystemFunction036", "RtlGenRandom"):
            bi = 1 if fn == "BCryptGenRandom" else 0
            buf, cnt = v[bi], v[bi + 1][0]
            cw = width(av[bi + 1][0]); out = []
            cases = [(p.copy(), cnt)]
            if cw < 64:
                a = p.copy(); a.ge0(cnt); b = p.copy(); b.ge0(add(scale(cnt, -1), {1: -1}))
                cases = [(a, cnt), (b, add(cnt, {1: 1 << cw}))]
            for q, c in cases:
                if q.empty(): continue
                self.bounds(q, n, buf[0], buf[1], c, fn)
                s, f = q.copy(), q.copy()
                if fn == "BCryptGenRandom":
                    flags = p.sub(v[3][0]); fl = flags.get(1, 0) if all(x == 1 for x in flags) else None
                    res(s, {}); res(f, None, {1: -1}); ok = fl is not None and (fl & 2) != 0
                elif fn == "getentropy": res(s, {}, {}); res(f, {1: -1}, {1: -1}); ok = True
                else: res(s, {1: 1}, {1: 1}); res(f, {}, {}); ok = True
                if ok: self.fill(s, n, buf[0], buf[1], c, fn)
                out += [x for x in (s, f) if not x.empty()]
            return out
        if fn in ("close", "fclose"):
            x = v[0][0]
            for g in list(p.kind):
                if p.kind[g] in ("fd", "file") and (g == av[0][1] or p.entails_eq(add({g: 1}, x, -1))): p.kind.pop(g)
            res(p); return [p]
        if re.match(r"(llvm\.)?mem(set|cpy|move)", fn):
            for i in (0,):
                if v[i][1] == "buf": self.clobber(p, v[i][0], v[2][0])
            if n.res: self.setv(p, n.res, v[0][0], v[0][1], ty)
            return [p]
        m2 = re.match(r"llvm\.([us])(min|max)", fn)
        if m2:
            out = []
            for q, t in self.compare(p, {"u": "ult", "s": "slt"}[m2.group(1)], v[0][0], v[1][0]):
                e = v[0][0] if t == (m2.group(2) == "min") else v[1][0]
                self.setv(q, n.res, e, None, ty); out.append(q)
            return out
        if any(k == "buf" for _, k in v): self.clobber(p, None, None)
        if n.res: self.havoc(p, n.res, ty)
        for g in [x for x in list(p.eq) + [y for e in p.iq.values() for y in e] if isinstance(x, str) and x.startswith("@") and not x.endswith("$addr")]:
            if fn in self.m.funcs: p.forget(g)
        return [p]

    def step(self, p, n):
        op, a = n.op, n.a
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            t = a.split(None, 0)[0]
            m = re.match(r"^((?:nuw |nsw |exact |disjoint )*)(i\d+) ([^,]+), (.+)$", a)
            if not m: raise CheckError("random source: " + n.txt)
            ty = m.group(2); w = width(ty); self.tys[n.res] = ty
            x, kx = self.val(p, ty, m.group(3).strip()); y, ky = self.val(p, ty, m.group(4).strip())
            cx, cy = p.sub(x), p.sub(y); cx = cx.get(1, 0) if all(z == 1 for z in cx) else None; cy = cy.get(1, 0) if all(z == 1 for z in cy) else None
            e = None
            if w > 1:
                if op == "add": e = add(x, y)
                elif op == "sub": e = add(x, y, -1)
                elif op == "mul" and cy is not None: e = scale(x, cy)
                elif op == "mul" and cx is not None: e = scale(y, cx)
                elif op == "shl" and cy is not None and 0 <= cy < w - 1: e = scale(x, 1 << cy)
            if e is not None:
                if "nsw" in m.group(1):
                    self.setv(p, n.res, e, None, ty); self.rng(p, n.res, w); return [p] if not p.empty() else []
                return self.fit(p, n.res, e, w)
            if w == 1 and op in ("and", "or", "xor") or (w > 1 and cx is not None and cy is not None):
                out = []
                for q, bx in self.bools(p, x) if w == 1 else [(p, cx)]:
                    for r, by in self.bools(q, y) if w == 1 else [(q, cy)]:
                        z = {"and": bx & by, "or": bx | by, "xor": bx ^ by}.get(op)
                        if z is None: r = r.copy(); self.havoc(r, n.res, ty); out.append(r); continue
                        r = r.copy(); self.setv(r, n.res, {1: z} if z else {}, None, ty); out.append(r)
                return out
            self.havoc(p, n.res, ty)
            if op == "and":
                for c, z in ((cy, x), (cx, y)):
                    if c is not None and c >= 0:
                        p.ge0({n.res: 1}); p.ge0({n.res: -1, 1: c})
                        if p.entails(z): p.ge0(add(z, {n.res: -1}))
                    elif c is not None and c < 0 and p.entails(z): p.ge0({n.res: 1}); p.ge0(add(z, {n.res: -1})); p.ge0(add({n.res: 1}, add(scale(z, -1), {1: -c - 1})))
            if op in ("lshr", "udiv", "sdiv", "ashr") and cy is not None and cy > 0 and p.entails(x):
                k = cy if op in ("udiv", "sdiv") else 1 << cy
                p.ge0({n.res: 1}); p.ge0(add(x, {n.res: -k})); p.ge0(add({n.res: k, 1: k - 1}, x, -1))
            if op in ("urem", "srem") and cy is not None and cy > 0 and p.entails(x):
                p.ge0({n.res: 1}); p.ge0({n.res: -1, 1: cy - 1}); p.ge0(add(x, {n.res: -1}))
            return [p] if not p.empty() else []
        if op == "icmp":
            m = re.match(r"^(?:samesign )?(\w+) (\S+) ([^,]+), (.+)$", a)
            x, kx = self.val(p, m.group(2), m.group(3).strip()); y, ky = self.val(p, m.group(2), m.group(4).strip())
            self.tys[n.res] = "i1"
            if "buf" in (kx, ky) and kx != ky:       # the buffer pointer against something else (null)
                out = []
                for b in (0, 1): q = p.copy(); self.setv(q, n.res, {1: 1} if b else {}, None, "i1"); out.append(q)
                return out
            out = []
            for q, t in self.compare(p, m.group(1), x, y):
                self.setv(q, n.res, {1: 1} if t else {}, None, "i1"); out.append(q)
            return out
        if op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            m = re.match(r"^(?:nneg |nuw |nsw )*(\S+) (\S+)(?: to (\S+))?$", a)
            ty = m.group(3) or m.group(1); x, k = self.val(p, m.group(1), m.group(2)); self.tys[n.res] = ty
            if op == "trunc": return self.fit(p, n.res, x, width(ty), k if k in ("fd",) else None)
            if op == "zext":
                out = []
                q = p.copy(); q.ge0(x)
                if not q.empty(): self.setv(q, n.res, x, k, ty); out.append(q)
                q = p.copy(); q.ge0(add(scale(x, -1), {1: -1}))
                if not q.empty(): self.setv(q, n.res, add(x, {1: 1 << width(m.group(1))}), k, ty); out.append(q)
                return out
            if op == "sext" and m.group(1) == "i1": x = scale(x, -1)
            self.setv(p, n.res, x, k, ty); return [p]
        if op == "select":
            m = re.match(r"^(?:\w+ )*?i1 (\S+), (\S+) (\S+), (\S+) (\S+)$", a)
            c, _ = self.val(p, "i1", m.group(1)); self.tys[n.res] = m.group(2); out = []
            for q, b in self.bools(p, c):
                q = q.copy(); x, k = self.val(q, m.group(2), m.group(3) if b else m.group(5)); self.setv(q, n.res, x, k, m.group(2)); out.append(q)
            return out
        if op == "getelementptr":
            m = re.match(r"^(?:inbounds |nuw |nusw )*([^,]+), ptr (\S+?)((?:, \S+ \S+)*)$", a)
            x, k = self.val(p, "ptr", m.group(2)); idx = [arg_val(z) for z in split_args(m.group(3).lstrip(", "))]
            ew = width(m.group(1)); self.tys[n.res] = "ptr"
            if k == "buf" and ew and len(idx) == 1:
                e, _ = self.val(p, idx[0][0], idx[0][1]); self.setv(p, n.res, add(x, scale(e, ew // 8)), "buf", "ptr")
            elif k == "buf": p.forget(n.res); p.kind[n.res] = "bufx"
            else: self.havoc(p, n.res, "ptr")
            return [p]
        if op == "load":
            m = re.match(r"^(?:volatile |atomic )*(\S+), ptr ([^,\s]+)", a); ty, x = m.group(1), m.group(2); self.tys[n.res] = ty
            if x.startswith("@") and x in self.m.ginit:
                self.setv(p, n.res, {x: 1}, p.kind.get(x), ty); return [p]
            self.havoc(p, n.res, ty); return [p]
        if op == "store":
            m = re.match(r"^(?:volatile |atomic )*(\S+) (\S+), ptr ([^,\s]+)", a); ty, x, d = m.groups()
            e, k = self.val(p, ty, x)
            if d.startswith("@") and d in self.m.ginit: self.setv(p, d, e, k, ty); return [p]
            kd = p.kind.get(d)
            if kd == "buf":
                w = (width(ty) or 64) // 8
                o, _ = self.val(p, "ptr", d); self.bounds(p, n, o, "buf", {1: w}, "a store"); self.clobber(p, o, {1: w})
            elif kd == "bufx": self.clobber(p, None, None)
            elif k == "buf": self.clobber(p, None, None)
            return [p]
        if op == "call": return self.call(p, n)
        if op == "alloca" or op == "extractvalue" or op == "landingpad":
            if n.res: p.forget(n.res)
            return [p]
        if op in ("fence",): return [p]
        if op in ("unreachable",): return []
        raise CheckError("random source: instruction the analysis does not know: " + n.txt)

    def bools(self, p, c):
        z = p.sub(c)
        if all(x == 1 for x in z): return [(p, 1 if z.get(1, 0) else 0)]
        out = []
        for b in (0, 1):
            q = p.copy(); q.eq0(add(c, {1: -b} if b else {}))
            if not q.empty(): out.append((q, b))
        return out

    def block(self, b, states):
        """outgoing states per successor"""
        cur = [s.copy() for s in states]
        for n in self.blocks[b]:
            if n.op == "phi": continue
            if n.op in ("br", "ret", "switch", "unreachable"): break
            nx = []
            for p in cur: nx += [q for q in self.step(p, n) if not q.bot]
            cur = self.prune(nx, 40)
        out = {}
        t = self.blocks[b][-1]
        if t.op == "ret":
            for p in cur: self.ret(p, t)
            return out
        if t.op == "unreachable": return out
        if t.op == "br":
            L = self.succ[b]
            if len(L) == 1: out.setdefault(L[0], []).extend(cur)
            else:
                c = re.match(r"^i1 (\S+),", t.a).group(1)
                for p in cur:
                    e, _ = self.val(p, "i1", c)
                    for q, v in self.bools(p, e): out.setdefault(L[0] if v else L[1], []).append(q)
        elif t.op == "switch":
            m = re.match(r"^(\S+) (\S+), label", t.a); cs = re.findall(r"i\d+ (-?\d+), label %([\w.$-]+)", t.a.split("[", 1)[1])
            for p in cur:
                e, _ = self.val(p, m.group(1), m.group(2)); rest = [p]
                for v, l in cs:
                    q = p.copy(); q.eq0(add(e, {1: -int(v)}))
                    if not q.empty(): out.setdefault(l, []).append(q)
                    nr = []
                    for r in rest:
                        for x, tr in self.compare(r, "eq", e, {1: int(v)} if int(v) else {}):
                            if not tr: nr.append(x)
                    rest = nr
                out.setdefault(self.succ[b][0], []).extend(rest)
        else: raise CheckError("random source: " + t.txt)
        return out

    def edge(self, frm, to, ps):
        out = []
        phis = [n for n in self.blocks[to] if n.op == "phi"]
        for p in ps:
            q = p.copy(); vals = []
            for n in phis:
                ty = n.a.split()[0]; self.tys[n.res] = ty
                for v, l in re.findall(r"\[ *([^,\]]+), *%([^\]]+?) *\]", n.a):
                    if l.strip('"') == frm:
                        vals.append((n.res, ty) + self.val(q, ty, v.strip())); break
            tmp = []
            for i, (r, ty, e, k) in enumerate(vals):
                q.eq0(add({"$p%d" % i: 1}, e, -1)); tmp.append((r, k))
            for r, k in tmp: q.forget(r)
            for i, (r, k) in enumerate(tmp):
                q.rename("$p%d" % i, r)
                q.kind.pop(r, None)
                if k: q.kind[r] = k
            keep = self.live[to] | {r for r, _ in tmp} | {"F", "N"} | set(self.m.ginit)
            for v in list(q.eq) + sorted({x for e in list(q.iq.values()) + list(q.eq.values()) for x in e if x != 1}, key=str):
                if v not in keep: q.forget(v)
            q.kind = {v: k for v, k in q.kind.items() if v in keep}
            if not q.empty(): out.append(q)
        return out

    def prune(self, ps, k):
        out = []
        for p in ps:
            if p.empty(): continue
            if any(p.leq(o) for o in out): continue
            out = [o for o in out if not o.leq(p)] + [p]
        while len(out) > k:
            a = out.pop(); b = out.pop(); out.append(Poly.join(a, b))
        return out

    def pkey(self, p):
        ks = []
        vs = set(p.eq)
        for v in vs:
            c = p.constval(v)
            if c in (-1, 0, 1) and v not in ("N",): ks.append((v, c))
        return tuple(sorted(ks)) + tuple(sorted((v, str(k)) for v, k in p.kind.items()))

    def ret(self, p, n):
        m = re.match(r"^(\S+)(?: (\S+))?$", n.a)
        if m.group(1) == "void": raise CheckError("the random source returns no status")
        e, _ = self.val(p, m.group(1), m.group(2))
        q = p.copy(); q.eq0(e)
        if not q.empty():
            self.oblige(q, q.entails({"F": 1, "N": -1}), n, "success is reported although not every requested byte is known to have been filled by the system generator")
        if self.recording:
            for g in self.tg:
                c = p.constval(g)
                if not (p.kind.get(g) in ("fd", "file") or (c is not None and c in self.gconsts(g))): self.badglobals.add(g)

    def gconsts(self, g):
        s = {self.m.ginit[g]}
        for f, (sig, body) in self.m.funcs.items():
            for x in re.findall(r"store \S+ (-?\d+), ptr %s\b" % re.escape(g), body): s.add(int(x))
        return s

    def entry(self):
        p = Poly()
        p.ge0({"N": 1}); p.ge0({"N": -1, 1: (1 << 63) - 1}); p.eq0({"F": 1})
        ptr = [x for t, x in self.params if t == "ptr"]; ints = [(t, x) for t, x in self.params if width(t) and t != "ptr"]
        if len(ptr) != 1 or len(ints) != 1: raise CheckError("unexpected signature of the random source")
        p.eq0({ptr[0]: 1}); p.kind[ptr[0]] = "buf"
        w = width(ints[0][0])
        if w < 64: p.ge0({"N": -1, 1: (1 << (w - 1)) - 1})
        p.eq0({ints[0][1]: 1, "N": -1})
        ps = [p]
        for g in self.m.ginit:
            if g in self.m.gconst:
                for q in ps: q.eq0(add({g: 1}, {1: -self.m.ginit[g]}))
                continue
            nx = []
            for q in ps:
                for c in sorted(self.gconsts(g)):
                    r = q.copy(); r.eq0(add({g: 1}, {1: -c})); nx.append(r)
                r = q.copy(); r.ge0({g: 1}); r.ge0({g: -1, 1: (1 << 63) - 1})
                if g in self.tg: r.kind[g] = "fd"
                nx.append(r)
            ps = nx
        return ps

    def run(self):
        ent = self.order[0]
        st = {b: {} for b in self.rpo}          # block -> {partition: state}
        outs = {}
        visits = {}
        def ins(b):
            r = []
            if b == ent: r += self.entry()
            for f in self.pred[b]: r += self.edge(f, b, outs.get((f, b), []))
            return r
        def go(b, states):
            o = self.block(b, states)
            for s in set(self.succ[b]): outs[(b, s)] = self.prune(o.get(s, []), 40)
        for it in range(60):
            changed = False
            for b in self.rpo:
                i = ins(b)
                if b in self.heads:
                    parts = {}
                    for p in i: parts.setdefault(self.pkey(p), []).append(p)
                    for k, ps in parts.items():
                        j = ps[0]
                        for x in ps[1:]: j = Poly.join(j, x)
                        old = st[b].get(k)
                        if old is not None and j.leq(old): continue
                        if old is not None and any(j.leq(o) for o in st[b].values()): continue
                        changed = True
                        visits[(b, k)] = visits.get((b, k), 0) + 1
                        st[b][k] = j if old is None else (Poly.join(old, j) if visits[(b, k)] < 4 else Poly.widen(old, Poly.join(old, j)))
                    if len(st[b]) > 30:
                        ps = list(st[b].values()); j = ps[0]
                        for x in ps[1:]: j = Poly.join(j, x)
                        st[b] = {"all": j}
                    states = list(st[b].values())
                else:
                    states = self.prune(i, 24)
                    st[b] = dict(enumerate(states))
                go(b, states)
            if not changed: break
        else: raise CheckError("random source: no fixpoint")
        self.iterations = it + 1
        for _ in range(2):                       # descending iterations
            for b in self.rpo:
                i = self.prune(ins(b), 40); st[b] = dict(enumerate(i)); go(b, i)
        self.recording = True
        for b in self.rpo: self.block(b, list(st[b].values()))
        self.recording = False
        self.disjuncts = sum(len(x) for x in st.values())
        return self

def compile_ir(flags, tag, outdir, target=None):
    src = os.path.join(ir.SRC, "random", "random.c")
    a, b = os.path.join(outdir, "rng_%s.ll" % tag), os.path.join(outdir, "rng_%s.opt.ll" % tag)
    cmd = [ir.CLANG, "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-discard-value-names", "-w"] + flags + [src, "-o", a]
    ir.run(cmd, cwd=ir.SRC)
    ir.run([ir.OPT, "-S", "-passes=cgscc(inline),function(sroa,simplifycfg,loop-simplify),globaldce", "-inline-threshold=1000000", a, "-o", b])
    return open(b).read()

def analyse(text, fname="randombytes"):
    mod = Mod(text)
    if fname not in mod.funcs: raise CheckError("the random source %s is not defined" % fname)
    tg = [g for g in mod.ginit if g not in mod.gconst]
    for _ in range(len(tg) + 1):
        a = Analysis(mod, fname, tg, "random/random.c").run()
        if not a.badglobals: return a
        tg = [g for g in tg if g not in a.badglobals]
    return a

def check(res, tier, outdir=None, what=("fill", "bounds")):
    from . import run
    outdir = outdir or run.irdir()
    info = {}
    for tag, flags in (("nix", ["-DNIX", "-D_AMD64_"]), ("windows", ["-DWINDOWS", "-D_AMD64_", "--target=x86_64-pc-windows-msvc", "-fms-extensions", "-ffreestanding", "-isystem", os.path.join(ir.VERIF, "stubs", "win"), "-isystem", os.path.join(ir.VERIF, "stubs", "c")])):
        a = analyse(compile_ir(flags, tag, outdir))
        info[tag] = {"blocks": len(a.rpo), "iterations": a.iterations, "disjuncts": a.disjuncts, "calls": sorted(a.calls), "obligations": a.obl}
        res.obl += a.obl; res.dis += a.obl - len(a.bad)
        if not any(c in a.calls for c in ("read", "getrandom", "getentropy", "BCryptGenRandom", "fread", "SystemFunction036", "RtlGenRandom")) and not a.bad:
            res.bad("random/random.c:0", "randombytes", "the system generator is never asked for bytes", tag)
        for line, msg in a.bad: res.bad("random/random.c:%d" % line, "randombytes", msg, tag)
    res.coverage["random_source"] = info
