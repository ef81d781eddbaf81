"""A small exact polyhedral domain over integer variables: equalities in solved form plus inequalities e >= 0.
A linear expression is a dict {variable: integer coefficient, 1: constant}."""
from math import gcd

def lin(c=0, **kw):
    d = dict(kw)
    if c: d[1] = c
    return d
def add(a, b, k=1):
    r = dict(a)
    for v, c in b.items():
        n = r.get(v, 0) + k * c
        if n: r[v] = n
        else: r.pop(v, None)
    return r
def scale(a, k):
    return {v: c * k for v, c in a.items()} if k else {}
def const(a):
    return a.get(1, 0) if all(v == 1 for v in a) else None
def norm(a):
    """gcd-normalise e >= 0 over the integers (the constant is rounded down)"""
    g = 0
    for v, c in a.items():
        if v != 1: g = gcd(g, c)
    if g > 1:
        r = {v: c // g for v, c in a.items() if v != 1}
        k = a.get(1, 0) // g
        if k: r[1] = k
        return r
    return a
def key(a):
    return tuple(sorted((str(v), c) for v, c in a.items() if v != 1))

class Poly:
    """bottom is represented by self.bot"""
    __slots__ = ("eq", "iq", "bot", "kind")
    def __init__(self):
        self.eq, self.iq, self.bot, self.kind = {}, {}, False, {}
    def copy(self):
        p = Poly(); p.eq = dict(self.eq); p.iq = dict(self.iq); p.bot = self.bot; p.kind = dict(self.kind)
        return p
    def sub(self, e):
        """rewrite an expression over the non-pivot variables (coefficients stay integer: pivots have coefficient 1)"""
        while True:
            hit = next((v for v in e if v in self.eq), None)
            if hit is None: return e
            k = e[hit]; e = dict(e); del e[hit]; e = add(e, self.eq[hit], k)
    def ge0(self, e):
        """assume e >= 0"""
        if self.bot: return self
        e = norm(self.sub(e)); c = const(e)
        if c is not None:
            if c < 0: self.bot = True
            return self
        k = key(e); o = self.iq.get(k)
        if o is None or e.get(1, 0) < o.get(1, 0): self.iq[k] = e
        n = self.iq.get(key(scale(e, -1)))
        if n is not None:
            s = e.get(1, 0) + n.get(1, 0)
            if s < 0: self.bot = True
            elif s == 0 and any(abs(c) == 1 for v, c in e.items() if v != 1): self.eq0(e)
        return self
    def eq0(self, e):
        if self.bot: return self
        e = self.sub(e); c = const(e)
        if c is not None:
            if c: self.bot = True
            return self
        g = 0
        for v, k in e.items():
            if v != 1: g = gcd(g, k)
        if e.get(1, 0) % g: self.bot = True; return self
        if g > 1: e = {v: k // g for v, k in e.items()}
        piv = [v for v, k in e.items() if v != 1 and abs(k) == 1]
        if not piv:
            self.ge0(e); self.ge0(scale(e, -1)); return self
        v = max(piv, key=str)
        k = e[v]; r = scale({x: c for x, c in e.items() if x != v}, -k)
        self.eq = {p: (add({x: c for x, c in q.items() if x != v}, r, q[v]) if v in q else q) for p, q in self.eq.items()}
        self.eq[v] = r
        old = self.iq; self.iq = {}
        for q in old.values():
            self.ge0(q)
            if self.bot: return self
        return self
    def empty(self):
        """integer-relaxed emptiness by Fourier-Motzkin elimination"""
        if self.bot: return True
        cs = dict(self.iq)
        while cs:
            occ = {}
            for e in cs.values():
                for v, c in e.items():
                    if v != 1: occ.setdefault(v, [0, 0])[c > 0] += 1
            if not occ: break
            v = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], str(x)))
            cs = self._elim(cs, v)
            if cs is None: self.bot = True; return True
        return False
    @staticmethod
    def _elim(cs, v):
        out = {}
        def put(e):
            e = norm(e); c = const(e)
            if c is not None: return c >= 0
            k = key(e); o = out.get(k)
            if o is None or e.get(1, 0) < o.get(1, 0): out[k] = e
            n = out.get(key(scale(e, -1)))
            return not (n is not None and n.get(1, 0) + out[k].get(1, 0) < 0)
        lo, hi = [], []
        for e in cs.values():
            c = e.get(v, 0)
            if c > 0: lo.append(e)
            elif c < 0: hi.append(e)
            elif not put(e): return None
        for a in lo:
            for b in hi:
                if not put(add(scale(a, -b[v]), b, a[v])): return None
        if len(out) > 400:      # give up precision, not soundness
            out = dict(sorted(out.items(), key=lambda t: len(t[1]))[:400])
        return out
    def entails(self, e):
        if self.bot: return True
        e = self.sub(e); c = const(e)
        if c is not None: return c >= 0
        o = self.iq.get(key(norm(e)))
        if o is not None and o.get(1, 0) <= norm(e).get(1, 0): return True
        p = self.copy(); p.ge0(add(scale(e, -1), {1: -1}))
        return p.empty()
    def entails_eq(self, e):
        e = self.sub(e); c = const(e)
        if c is not None: return c == 0
        return self.entails(e) and self.entails(scale(e, -1))
    def forget(self, v):
        self.kind.pop(v, None)
        if self.bot: return self
        if v in self.eq:
            del self.eq[v]; return self
        for p, q in list(self.eq.items()):
            if v in q and abs(q[v]) == 1:       # solve for v and substitute it away
                r = scale(add({x: c for x, c in q.items() if x != v}, {p: -1}), -q[v])
                del self.eq[p]
                self.eq = {a: (add({x: c for x, c in b.items() if x != v}, r, b[v]) if v in b else b) for a, b in self.eq.items()}
                old = self.iq; self.iq = {}
                for e in old.values():
                    self.ge0(add({x: c for x, c in e.items() if x != v}, r, e[v]) if v in e else e)
                return self
        for p, q in list(self.eq.items()):
            if v in q: del self.eq[p]
        n = self._elim(self.iq, v)
        if n is None: self.bot = True
        else: self.iq = n
        return self
    def assign(self, v, e):
        """v := e (e may mention v)"""
        t = "$t"
        self.eq0(add({t: 1}, e, -1))
        k = self.kind.pop(v, None)
        self.forget(v)
        self.rename(t, v)
        return self
    def rename(self, a, b):
        def rn(e): return {(b if x == a else x): c for x, c in e.items()}
        self.eq = {(b if p == a else p): rn(q) for p, q in self.eq.items()}
        self.iq = {key(x): x for x in (rn(e) for e in self.iq.values())}
        return self
    def cons(self):
        for p, q in self.eq.items():
            e = add({p: 1}, q, -1); yield e; yield scale(e, -1)
        for e in self.iq.values(): yield e
    def constval(self, v):
        return const(self.sub({v: 1}))
    def leq(self, o):
        """self is included in o"""
        if self.empty(): return True
        if o.bot: return False
        if any(self.kind.get(v) != k for v, k in o.kind.items()): return False
        return all(self.entails(e) for e in o.cons())
    @staticmethod
    def join(a, b):
        if a.empty(): return b.copy()
        if b.empty(): return a.copy()
        r = Poly()
        r.kind = {v: k for v, k in a.kind.items() if b.kind.get(v) == k}
        for e in affine_join(a, b): r.eq0(e)
        for x, y in ((a, b), (b, a)):
            for e in x.cons():
                if y.entails(e): r.ge0(e)
        return r
    @staticmethod
    def widen(old, new):
        if old.empty(): return new.copy()
        r = Poly(); r.kind = {v: k for v, k in old.kind.items() if new.kind.get(v) == k}
        for e in affine_join(old, new): r.eq0(e)
        for e in old.cons():
            if new.entails(e): r.ge0(e)
        # constraints of the new state that the old one satisfied as well
        for e in new.cons():
            if len(e) <= 3 and all(abs(c) == 1 for v, c in e.items() if v != 1) and not e.get(1, 0) and old.entails(e): r.ge0(e)
        return r

def affine_join(a, b):
    """equalities that hold in both (affine hull of the union), by linear algebra over the rationals"""
    from fractions import Fraction
    vs = set()
    for p in (a, b):
        for v, q in p.eq.items(): vs.add(v); vs.update(x for x in q if x != 1)
    vs = sorted(vs, key=str)
    # candidates: all linear combinations sum l_i * A_i that are also entailed (affinely) by b
    A = [add({v: 1}, q, -1) for v, q in a.eq.items()]
    if not A or not b.eq: return []
    R = [b.sub(e) for e in A]          # sum l_i R_i must vanish
    cols = sorted({v for e in R for v in e}, key=str)
    M = [[Fraction(e.get(c, 0)) for e in R] for c in cols]   # rows: one equation per variable, unknowns l_i
    n = len(R); piv = []; r = 0
    for c in range(n):
        p = next((i for i in range(r, len(M)) if M[i][c]), None)
        if p is None: continue
        M[r], M[p] = M[p], M[r]
        k = M[r][c]; M[r] = [x / k for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c]:
                k = M[i][c]; M[i] = [x - k * y for x, y in zip(M[i], M[r])]
        piv.append(c); r += 1
    out = []
    for f in (c for c in range(n) if c not in piv):
        l = [Fraction(0)] * n; l[f] = Fraction(1)
        for i, c in enumerate(piv): l[c] = -M[i][f]
        den = 1
        for x in l: den = den * x.denominator // gcd(den, x.denominator)
        e = {}
        for x, q in zip(l, A):
            if x: e = add(e, q, int(x * den))
        if e: out.append(e)
    return out
