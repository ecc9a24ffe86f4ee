"""Path facts: truth of boolean terms, unsigned intervals, small value sets and
linear inequalities (a relational domain decided by Fourier-Motzkin elimination).
Facts speak about terms, and terms denote fixed values, so facts are never
invalidated; they only accumulate along a path."""
from .terms import *
from . import terms as tm
import math

GLOBAL_IV = {}       # standing assumptions: atom -> (lo, hi)

def bits_of(x, m, v):
    """x with the bits of the mask replaced by those of v"""
    out = []; p = 0
    while p < x.w:
        k = m >> p & 1; n = 1
        while p + n < x.w and m >> (p + n) & 1 == k: n += 1
        out.append(C(n, v >> p) if k else slc(x, p, n))
        p += n
    return tm.cat(out)

def topbit(t):
    """x < 0 for a sum x, for a t that is the sign bit of x"""
    if t.k == "cat" and t.w == 1 and len(t.a) == 1:
        x, l, n = t.a[0]
        if x is not None and x.k == "lin" and l == x.w - 1: return slt(x, C(x.w, 0))
    return None
class Facts:
    __slots__ = ("lits", "iv", "dom", "lin", "memo", "log", "leq", "nb", "dj", "uf", "neq", "kb", "sub")
    def __init__(self):
        self.kb = {}         # leaf -> (mask, value): bits that are known
        self.sub = {}        # leaf -> what it equals
        self.nb = ()         # conjunctions known to be false
        self.uf = {}; self.neq = ()   # equality classes, known distinct pairs
        self.dj = ()         # disjunctions of linear inequalities known to be true
        self.leq = {}        # linear part (constant-free) -> known value modulo 2^w
        self.lits = {}; self.iv = {}; self.dom = {}; self.lin = []; self.memo = {}; self.log = ()
    def copy(self):
        f = Facts.__new__(Facts)
        f.lits = dict(self.lits); f.iv = dict(self.iv); f.dom = dict(self.dom); f.lin = list(self.lin); f.memo = {}; f.log = self.log; f.leq = dict(self.leq); f.nb = self.nb; f.dj = self.dj; f.uf = dict(self.uf); f.kb = dict(self.kb); f.sub = dict(self.sub); f.neq = self.neq
        return f

    # ---------------------------------------------------------- intervals
    def rng(self, t, d=0):
        w = t.w; full = (1 << w) - 1
        k = t.k
        if k == "c": return (t.a, t.a)
        lo, hi = 0, full
        g = self.iv.get(t)
        if g: lo, hi = g
        g = GLOBAL_IV.get(t)
        if g: lo = max(lo, g[0]); hi = min(hi, g[1])
        m = self.dom.get(t)
        if m is not None and m:
            lo = max(lo, (m & -m).bit_length() - 1); hi = min(hi, m.bit_length() - 1)
        if d > 12: return (lo, hi)
        l2, h2 = 0, full
        if k == "cat":
            l2 = h2 = 0; p = 0
            for s, l, n in t.a:
                if s is None: a = b = l
                elif l == 0 and n == s.w: a, b = self.rng(s, d + 1)
                else:
                    x = tm._part((s, l, n))
                    g = self.iv.get(x) if x is not t else None
                    a, b = g if g else (0, (1 << n) - 1)
                    sa, sb = self.rng(s, d + 1)
                    if l == 0 and sb < (1 << n): a, b = max(a, sa), min(b, sb)
                    elif l + n == s.w: a, b = max(a, sa >> l), min(b, sb >> l)
                    elif sa >> (l + n) == sb >> (l + n):
                        mk = (1 << n) - 1
                        a, b = max(a, (sa >> l) & mk), min(b, (sb >> l) & mk)
                l2 += a << p; h2 += b << p; p += n
        elif k == "lin":
            r = self.linrng(t.a[0], t.a[1], w, d)
            if r: l2, h2 = r
        elif k == "op":
            o = t.a[0]; xs = t.a[1:]
            if o == "and": h2 = min(self.rng(x, d + 1)[1] for x in xs)
            elif o == "or":
                rs = [self.rng(x, d + 1) for x in xs]
                l2 = max(r[0] for r in rs); h2 = (1 << max(r[1].bit_length() for r in rs)) - 1
            elif o == "xor":
                h2 = (1 << max(self.rng(x, d + 1)[1].bit_length() for x in xs)) - 1
            elif o == "udiv":
                a, b = self.rng(xs[0], d + 1), self.rng(xs[1], d + 1)
                if b[0]: l2, h2 = a[0] // b[1], a[1] // b[0]
            elif o == "urem":
                a, b = self.rng(xs[0], d + 1), self.rng(xs[1], d + 1)
                if b[0]:
                    h2 = min(a[1], b[1] - 1)
                    if a[1] < b[0]: l2 = a[0]
            elif o == "mul":
                a, b = self.rng(xs[0], d + 1), self.rng(xs[1], d + 1)
                if a[1] * b[1] <= full: l2, h2 = a[0] * b[0], a[1] * b[1]
            elif o == "lshr": h2 = self.rng(xs[0], d + 1)[1]
            elif o == "ite":
                v = self.val(xs[0])
                a, b = self.rng(xs[1], d + 1), self.rng(xs[2], d + 1)
                l2, h2 = a if v is True else b if v is False else (min(a[0], b[0]), max(a[1], b[1]))
            elif o == "ctpop": h2 = xs[0].w
            elif o in ("sdiv", "srem"):
                a, b = self.rng(xs[0], d + 1), self.rng(xs[1], d + 1)
                half = 1 << (w - 1)
                if a[1] < half and b[1] < half and b[0] > 0:
                    if o == "sdiv": l2, h2 = a[0] // b[1], a[1] // b[0]
                    else: l2, h2 = 0, min(a[1], b[1] - 1)
            elif o == "sext":
                a = self.rng(xs[0], d + 1)
                if a[1] < 1 << (xs[0].w - 1): l2, h2 = a
        lo, hi = max(lo, l2), min(hi, h2)
        if lo > hi: lo, hi = hi, lo
        return (lo, hi)

    def linrng(self, c, items, w, d=0):
        """unsigned range of a linear form mod 2^w if it provably does not wrap"""
        M = 1 << w
        if self.leq:
            v = self.leq.get((w, items))
            if v is not None: return ((v + c) % M,) * 2
        c = sgn(c, w) if len(items) else c
        lo = hi = c
        for x, f in items:
            f = sgn(f, w)
            a, b = self.rng(x, d + 1)
            if f > 0: lo += f * a; hi += f * b
            else: lo += f * b; hi += f * a
        if lo // M == hi // M: return lo % M, hi % M
        return None

    def flat(self, t):
        """(const, {atom: coef}, lo, hi): an integer sum congruent to t modulo 2^w.  Sums
        buried under extensions and lossless truncations are taken apart as well."""
        key = ("F", t.uid)
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = self._flat(t)
        return r
    def _flat(self, t):
        if t.k == "c": return t.a, {}, t.a, t.a
        c, d = to_lin(t); w = t.w
        c = sgn(c, w) if d else c
        out = {}
        for x, f in d.items():
            f = sgn(f, w)
            y = x
            while y.k == "cat" and (len(y.a) == 1 or len(y.a) == 2 and y.a[1][0] is None and y.a[1][1] == 0):
                s, l, n = y.a[0]
                if s is None: break
                if l:
                    # one name for the slices that differ in bits known to be zero
                    y = tm._part((s, l, s.w - l if l + n < s.w and not self.rng(s)[1] >> l + n else n))
                    if y.w < 64: y = tm.zext(y, 64)
                    break
                if n < s.w and self.rng(s)[1] >> n:
                    y = tm._part((s, l, n)); break
                y = s
            if y.k == "lin" and y is not t:
                ci, di = self.intlin(y)
                c += f * ci
                for z, g in di.items(): out[z] = out.get(z, 0) + f * g
            else: out[y] = out.get(y, 0) + f
        out = {x: f for x, f in out.items() if f}
        lo = hi = c
        for x, f in out.items():
            a, b = self.rng(x)
            if f > 0: lo += f * a; hi += f * b
            else: lo += f * b; hi += f * a
        if len(out) > 1:
            for q, k in self.lin:
                if len(q) == len(out):
                    if q == out: hi = min(hi, c - k)
                    elif all(out.get(x) == -f for x, f in q.items()): lo = max(lo, c + k)
            if lo > hi: lo, hi = hi, lo
        return c, out, lo, hi
    def intlin(self, t):
        """(const, {atom: coef}): the unsigned value of t over the integers (t itself where the sum may wrap)"""
        if t.k == "c": return t.a, {}
        c, d, lo, hi = self.flat(t)
        M = 1 << t.w
        if lo // M == hi // M: return c - lo // M * M, d
        if self.lin and hi - lo < 4 * M:
            # relational bounds
            if (lo >= 0 or self.prove_le({x: -f for x, f in d.items()}, -c)) and (hi < M or self.prove_le(d, c - M + 1)):
                return c, d
        return self.lin_opaque(t)
    def modlin(self, t):
        """(const, {atom: coef}, off): t = (sum + off) mod 2^w with 0 <= sum < 2^w, for a t that may wrap"""
        if t.k != "lin": return None
        c, d, lo, hi = self.flat(t)
        if hi - lo >= 1 << t.w: return None
        return c - lo, d, lo
    def below(self, a, B):
        """a < B, for a sum a that may wrap, as (v, all, any): the truth is v when all of the
        inequalities of the first list hold and not v when one of the second does"""
        m = self.modlin(a)
        if not m: return None
        c, d, off = m; M = 1 << a.w
        lo, hi = -off % M, (B - 1 - off) % M
        n = {x: -f for x, f in d.items()}
        if lo <= hi: return True, [(n, lo - c), (d, c - hi)], [(d, c - lo + 1), (n, hi + 1 - c)]
        return False, [(n, hi + 1 - c), (d, c - lo + 1)], [(d, c - hi), (n, lo - c)]
    def sintlin(self, t):
        """(const, {atom: coef}): the signed value of t over the integers, or None when it may wrap"""
        w = t.w; half = 1 << (w - 1)
        if t.k == "c": return sgn(t.a, w), {}
        c, d = to_lin(t)
        d = {x: sgn(f, w) for x, f in d.items()}
        lo = hi = c = sgn(c, w)
        for x, f in d.items():
            a, b = self.rng(x)
            if f > 0: lo += f * a; hi += f * b
            else: lo += f * b; hi += f * a
        return (c, d) if lo >= -half and hi < half else None
    def sdiff(self, a, b):
        """signed a - b over the integers"""
        A = self.sintlin(a); B = A and self.sintlin(b)
        if not B: return None
        d = dict(A[1])
        for x, f in B[1].items(): d[x] = d.get(x, 0) - f
        return A[0] - B[0], {x: f for x, f in d.items() if f}
    def lin_opaque(self, t):
        return 0, {t: 1}

    # ---------------------------------------------------------- linear facts
    def add_le(self, d, c):
        """sum d + c <= 0"""
        d = {x: f for x, f in d.items() if f}
        if not d: return c <= 0
        g = math.gcd(*d.values())
        if g > 1: d = {x: f // g for x, f in d.items()}; c = -(-c // g)
        self.memo = {}
        if len(d) == 2:
            (x, f), (y, g) = d.items()
            if f + g == 0 and abs(f) == 1 and x.w == y.w:
                # x - y <= -c and y - x <= c
                if f < 0: x, y, c0 = y, x, c
                else: c0 = c
                if any(q[1] == -c and len(q[0]) == 2 and q[0].get(x) == -d[x] and q[0].get(y) == -d[y] for q in self.lin):
                    if x.k in ("s", "m") and (y.k not in ("s", "m") or x.uid > y.uid): self.equal(x, addc(y, -c0))
                    elif y.k in ("s", "m"): self.equal(y, addc(x, c0))
        self.lin.append((d, c))
        # unit propagation to intervals
        for x, f in d.items():
            rest = c
            for y, g in d.items():
                if y is x: continue
                a, b = self.rng(y)
                rest += g * a if g > 0 else g * b
            # f*x + rest <= 0
            if f > 0:
                ub = (-rest) // f
                if ub < 0: return False
                if not self.tighten(x, 0, ub): return False
            else:
                lb = -((-rest) // -f) if False else (rest + (-f) - 1) // (-f)
                if lb > 0 and not self.tighten(x, lb, (1 << x.w) - 1): return False
        return True
    def equal(self, x, t):
        t = tm.subst(t, self.sub) if self.sub else t
        if x in support(t): return
        for y, u in self.sub.items():
            if x in support(u): self.sub[y] = tm.subst(u, {x: t})
        self.sub[x] = t
    def tighten(self, x, lo, hi):
        a, b = self.rng(x)
        lo, hi = max(a, lo), min(b, hi)
        while lo <= hi and self.lits.get(tm.eq(x, C(x.w, lo))) is False: lo += 1
        while lo <= hi and self.lits.get(tm.eq(x, C(x.w, hi))) is False: hi -= 1
        if lo > hi: return False
        if (lo, hi) != (a, b) and x.k != "c":
            self.iv[x] = (lo, hi)
            if x.k == "cat" and len(x.a) == 1:
                # a top slice bounds the whole value
                s, l, n = x.a[0]
                if s is not None and l + n == s.w and l:
                    if not self.tighten(s, lo << l, (hi << l) | ((1 << l) - 1)): return False
            if x.k == "cat":
                # zext(slice): forward to the slice
                s, l, n = x.a[0]
                if s is not None and len(x.a) == 2 and x.a[1][0] is None and x.a[1][1] == 0:
                    y = tm._part((s, l, n))
                    if y is not x and not self.tighten(y, lo, hi): return False
            if x.w <= 8 and x.k in ("s", "m"):
                m = self.dom.get(x, (1 << (1 << x.w)) - 1)
                m &= ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)
                if not m: return False
                self.dom[x] = m
        return True

    def prove_le(self, d, c):
        """is sum d + c <= 0 implied?"""
        d = {x: f for x, f in d.items() if f}
        if not d: return c <= 0
        key = (tuple(sorted((x.uid, f) for x, f in d.items())), c)
        r = self.memo.get(key)
        if r is not None: return r
        hi = c
        for x, f in d.items():
            a, b = self.rng(x)
            hi += f * b if f > 0 else f * a
        if hi <= 0: self.memo[key] = True; return True
        r = self._fm({x: -f for x, f in d.items()}, 1 - c)   # assume sum d + c >= 1, i.e. -sum d - c + 1 <= 0
        self.memo[key] = r
        return r

    def _fm(self, d, c):
        """infeasibility of {d + c <= 0} together with the facts"""
        rel = [(dict(d), c)]
        atoms = set(d)
        pool = list(self.lin)
        changed = True
        while changed and len(rel) < 30:
            changed = False
            for q in list(pool):
                if any(x in atoms for x in q[0]):
                    rel.append(q); pool.remove(q); atoms |= set(q[0]); changed = True
        if len(rel) == 1: return False
        for x in atoms:
            a, b = self.rng(x)
            rel.append(({x: -1}, a))
            rel.append(({x: 1}, -b))
        vs = sorted(atoms, key=lambda x: x.uid)
        while vs:
            # eliminate the variable with the fewest combinations
            best = None
            for v in vs:
                p = sum(1 for q in rel if q[0].get(v, 0) > 0); n = sum(1 for q in rel if q[0].get(v, 0) < 0)
                k = p * n - p - n
                if best is None or k < best[0]: best = (k, v)
            v = best[1]; vs.remove(v)
            P = [q for q in rel if q[0].get(v, 0) > 0]; N = [q for q in rel if q[0].get(v, 0) < 0]
            Z = [q for q in rel if not q[0].get(v, 0)]
            seen = set()
            for pd, pc in P:
                for nd, nc in N:
                    f, g = -nd[v], pd[v]
                    e = {}
                    for x, k in pd.items(): e[x] = e.get(x, 0) + k * f
                    for x, k in nd.items(): e[x] = e.get(x, 0) + k * g
                    e = {x: k for x, k in e.items() if k}
                    cc = pc * f + nc * g
                    if not e:
                        if cc > 0: return True
                        continue
                    kk = (tuple(sorted((x.uid, k) for x, k in e.items())), cc)
                    if kk in seen: continue
                    seen.add(kk)
                    Z.append((e, cc))
            rel = Z
            if len(rel) > 400: return False
        return False

    # ---------------------------------------------------------- truth
    def val(self, t):
        """True / False / None"""
        r = self.val0(t)
        if r is None and (t.k == "cmp" or t.k == "op" and t.a[0] == "bxor"):
            u = self.reduce(t)
            if u is not t: return self.val(u)
        if r is None and self.nb:
            for b in self.nb:
                if t in b and all(x is t or self.lits.get(x) is True for x in b): return False
        return r
    def reduce(self, t):
        """t rewritten with what is known: decided choices, high bits that are zero"""
        m = {}
        for x in tm.ites(t):
            v = self.val(x.a[1])
            if v is not None: m[x] = x.a[2] if v else x.a[3]
        if self.sub:
            for x in support(t):
                if x in self.sub: m[x] = self.sub[x]
        if self.kb:
            for x in support(t):
                k = self.kb.get(x)
                if k: m[x] = bits_of(x, *k)
        for x in tm.sexts(t):
            y = x.a[1]
            if not self.rng(y)[1] >> (y.w - 1): m[x] = zext(y, x.w)
        if tm.bitwise(t):
            for x in support(t):
                if x in m: continue
                if x.w <= 64:
                    n = self.rng(x)[1].bit_length()
                    if n < x.w: m[x] = zext(slc(x, 0, n), x.w) if n else C(x.w, 0)
        return tm.subst(t, m) if m else t
    def val0(self, t):
        if t.k == "c": return bool(t.a)
        r = self.lits.get(t)
        if r is not None: return r
        if t.k == "op":
            o = t.a[0]
            if o == "not":
                r = self.val(t.a[1])
                return None if r is None else not r
            if o == "band":
                unk = False
                for x in t.a[1:]:
                    v = self.val(x)
                    if v is False: return False
                    if v is None: unk = True
                if not unk: return True
                if not truth8(t): return None
            if o == "ite":
                v = self.val(t.a[1])
                if v is not None: return self.val(t.a[2] if v else t.a[3])
            if o == "bxor":
                if t.a[1] is t.a[2]: return False
                x, y = self.val(t.a[1]), self.val(t.a[2])
                if x is not None and y is not None: return x != y
        g = topbit(t)
        if g is not None:
            r = self.val0(g)
            if r is not None: return r
        tr = truth8(t)
        if tr:
            x, m = tr
            D = self.dom.get(x)
            if D is None:
                a, b = self.rng(x)
                D = ((1 << (b + 1)) - 1) & ~((1 << a) - 1)
            if D & m == 0: return False
            if D & ~m == 0: return True
            return None
        if t.k == "cmp":
            o, a, b = t.a
            if o == "eq" and a.w == 1:
                x, y = self.val(a), self.val(b)
                if x is not None and y is not None: return x == y
            if o == "eq" and a.k == b.k == "m" and a.a[:2] == b.a[:2] and isinstance(a.a[2], tm.T) and isinstance(b.a[2], tm.T) and self.val(eq(a.a[2], b.a[2])) is True: return True
            (al, ah), (bl, bh) = self.rng(a), self.rng(b)
            if o == "eq":
                if ah < bl or bh < al: return False
                if al == ah == bl == bh: return True
                if self.lits.get(ult(a, b)) or self.lits.get(ult(b, a)): return False
                if self.uf and b.k != "c":
                    x, y = self.find(a), self.find(b)
                    if x is y: return True
                    for p, q in self.neq:
                        p, q = self.find(p), self.find(q)
                        if p is x and q is y or p is y and q is x: return False
                if b.k == "c" and a.k == "cat":
                    # slice-wise refutation
                    p = 0
                    for s, l, n in a.a:
                        if s is not None:
                            v = (b.a >> p) & ((1 << n) - 1)
                            x = tm._part((s, l, n))
                            if x is not a:
                                lo, hi = self.rng(x)
                                if v < lo or v > hi: return False
                                if self.lits.get(eq(x, C(n, v))) is False: return False
                                tt = truth8(eq(x, C(n, v)))
                                if tt:
                                    D = self.dom.get(tt[0])
                                    if D is not None and D & tt[1] == 0: return False
                        p += n
                    return None
                if self.lin or a.k == "lin" or b.k == "lin":
                    A, Bq = self.intlin(a), self.intlin(b)
                    if b.k == "c" and A[1] == {a: 1}:
                        m = self.modlin(a)
                        if m: A, Bq = (m[0], m[1]), ((b.a - m[2]) % (1 << a.w), {})
                    if A[1] or Bq[1] or a.k == "lin" or b.k == "lin":
                        d = dict(A[1])
                        for x, f in Bq[1].items(): d[x] = d.get(x, 0) - f
                        c = A[0] - Bq[0]
                        if self.prove_le(d, c + 1) or self.prove_le({x: -f for x, f in d.items()}, -c + 1): return False
                        if self.prove_le(d, c) and self.prove_le({x: -f for x, f in d.items()}, -c): return True
                return None
            if o == "ult":
                if ah < bl: return True
                if al >= bh: return False
                if b.k == "c" and a.k == "lin":
                    r = self.below(a, b.a)
                    if r:
                        if all(self.prove_le(*x) for x in r[1]): return r[0]
                        if any(self.prove_le(*x) for x in r[2]): return not r[0]
                        return None
                if self.lin or a.k == "lin" or b.k == "lin":
                    A, Bq = self.intlin(a), self.intlin(b)
                    d = dict(A[1])
                    for x, f in Bq[1].items(): d[x] = d.get(x, 0) - f
                    c = A[0] - Bq[0]
                    if self.prove_le(d, c + 1): return True
                    if self.prove_le({x: -f for x, f in d.items()}, -c): return False
                return None
            if o == "slt":
                half = 1 << (a.w - 1)
                an = 1 if al >= half else 0 if ah < half else None
                bn = 1 if bl >= half else 0 if bh < half else None
                if an is not None and bn is not None:
                    if an != bn: return bool(an)
                    return self.val(ult(a, b))
                if an == 0 and b.k == "c" and bh >= half: return False
                q = self.sdiff(a, b)
                if q:
                    c, d = q
                    if self.prove_le(d, c + 1): return True
                    if self.prove_le({x: -f for x, f in d.items()}, -c): return False
                return None
        return None

    def assume(self, t, v):
        """add the fact t == v; False when contradictory"""
        if not self.assume1(t, v): return False
        for p, q in self.neq:
            (a, b), (c, d) = self.rng(p), self.rng(q)
            if a == b == c == d: return False
        if self.dj:
            for q in self.dj:
                live = [x for x in q if not self.prove_le({y: -f for y, f in x[0].items()}, 1 - x[1])]
                if len(live) == len(q): continue
                self.dj = tuple(x for x in self.dj if x is not q)
                if not live or not self.add_le(*live[0]): return False
        if self.nb: return self.units()
        return True
    def units(self):
        """conjunctions known to be false, all but one of whose members hold"""
        for c in self.nb:
            left = []; done = False
            for x in c:
                v = self.val0(x)
                if v is False: done = True; break
                if v is None: left.append(x)
            if not done and len(left) == len(c): continue
            if not done and len(left) > 1: continue
            if not any(c is d for d in self.nb): continue
            self.nb = tuple(d for d in self.nb if d is not c)
            if done: continue
            if not left: return False
            return self.assume(left[0], False)
        return True
    def restrict(self, x, m):
        """x is one of the values of the mask"""
        full = (1 << (1 << x.w)) - 1
        D = self.dom.get(x, full) & m & full
        if not D: return False
        self.dom[x] = D; self.memo = {}
        lo, hi = (D & -D).bit_length() - 1, D.bit_length() - 1
        return self.tighten(x, lo, hi)
    def assume1(self, t, v):
        cur = self.val(t)
        if cur is not None: return cur == v
        if t.k == "op":
            o = t.a[0]
            if o == "not": return self.assume(t.a[1], not v)
            if o == "band":
                if v:
                    self._lit(t, True)
                    return all(self.assume(x, True) for x in t.a[1:])
                unk = [x for x in t.a[1:] if self.val(x) is None]
                self._lit(t, False)
                tr = truth8(t)
                if tr and tr[0].w > 1: return self.restrict(tr[0], ~tr[1])
                if len(unk) == 1: return self.assume(unk[0], False)
                nb = self.nb; self.nb += (tuple(unk),)
                if len(unk) == 2:       # not (a and b), not (a and not b): not a
                    for c in nb:
                        if len(c) != 2: continue
                        for a, b in ((unk[0], unk[1]), (unk[1], unk[0])):
                            if (a is c[0] and lnot(b) is c[1] or a is c[1] and lnot(b) is c[0]) and not self.assume(a, False): return False
                return True
        self._lit(t, v)
        g = topbit(t)
        if g is not None and self.val0(g) is None and not self.assume1(g, v): return False
        if t.k == "cmp":
            u = self.reduce(t)
            if u is not t and not self.assume(u, v): return False
        if t.k == "cat" and t.w == 1 and (not self.tighten(t, int(v), int(v)) or not self.known(t, int(v))): return False
        if t.k == "cmp" and t.a[0] == "eq" and t.a[1].w == 1 and t.a[1].k == "cat" and t.a[2].k == "c":
            b = t.a[2].a if v else 1 - t.a[2].a
            if not self.tighten(t.a[1], b, b): return False
        tr = truth8(t)
        if tr:
            x, m = tr
            if x.w > 0:
                if not self.restrict(x, m if v else ~m): return False
        if t.k == "cmp":
            o, a, b = t.a
            if o == "eq": return self._eq(a, b, v)
            if o == "ult":
                r = self.below(a, b.a) if b.k == "c" and a.k == "lin" else None
                if r:
                    if v == r[0]: return all(self.add_le(*x) for x in r[1])
                    live = [x for x in r[2] if not self.prove_le({y: -f for y, f in x[0].items()}, 1 - x[1])]
                    if not live: return False
                    if len(live) == 1: return self.add_le(*live[0])
                    self.dj += (tuple(live),)
                    return True
                if v: return self._le(a, b, 1)
                return self._le(b, a, 0)
            if o == "slt":
                half = 1 << (a.w - 1)
                (al, ah), (bl, bh) = self.rng(a), self.rng(b)
                full = 2 * half - 1
                if not (ah < half and bh < half):
                    q = self.sdiff(a, b)
                    if q:
                        c, d = q
                        if v: return self.add_le(d, c + 1)
                        return self.add_le({x: -f for x, f in d.items()}, -c)
                if not v and al >= half and b.k == "c" and b.a >= half and not self.tighten(a, b.a, full): return False
                if v and bl >= half and a.k == "c" and a.a >= half and not self.tighten(b, a.a + 1, full): return False
                if v:
                    if al < half and ah < half: # a>=0, b>a => b>=1 signed positive
                        if not self.tighten(b, al + 1, half - 1): return False
                        return self._le(a, b, 1)
                    if b.k == "c" and b.a >= half:
                        return self.tighten(a, half, b.a - 1)
                    if bh < half and al >= 0 and b.k == "c":
                        return True
                else:
                    # b <= a signed
                    if bl < half and bh < half:
                        if not self.tighten(a, bl, half - 1): return False
                        return self._le(b, a, 0)
                    if a.k == "c" and a.a >= half:
                        return self.tighten(b, half, a.a)
        return True
    def _lit(self, t, v):
        self.lits[t] = v; self.memo = {}
        self.log = (self.log, (t, v))
    def path(self):
        out = []; l = self.log
        while l: out.append(l[1]); l = l[0]
        return out[::-1]

    def _le(self, a, b, k):
        """a + k <= b unsigned"""
        (al, ah), (bl, bh) = self.rng(a), self.rng(b)
        if al + k > bh: return False
        # single atom modular interval: atom + c vs const
        A, Bq = self.intlin(a), self.intlin(b)
        if b.k == "c" and A[1] == {a: 1}:
            c, d = to_lin(a)
            if len(d) == 1 and c:
                (x, f), = d.items()
                if f == 1:
                    # x + c <= b-k (mod) : x in [-c, b-k-c]
                    lo, hi = (-c) % (1 << a.w), (b.a - k - c) % (1 << a.w)
                    if lo <= hi: return self.tighten(x, lo, hi)
        d = dict(A[1])
        for x, f in Bq[1].items(): d[x] = d.get(x, 0) - f
        if not self.tighten(a, al, bh - k): return False
        if not self.tighten(b, al + k, bh): return False
        return self.add_le(d, A[0] - Bq[0] + k)

    def known(self, a, c):
        """a, a leaf or a slice of one, is the constant c: its bits are known from now on"""
        if a.k in ("s", "m"): x, l, n = a, 0, a.w
        elif a.k == "cat" and len(a.a) == 1 and a.a[0][0] is not None and a.a[0][0].k in ("s", "m"): x, l, n = a.a[0]
        else: return True
        if x.w > 64: return True
        m, v = self.kb.get(x, (0, 0))
        k = ((1 << n) - 1) << l
        if (v ^ c << l) & m & k: return False
        if m & k == k: return True
        self.kb[x] = (m | k, v | c << l)
        if n == x.w and not m: return True           # whole values are handled by intervals
        for t, b in list(self.lits.items()):
            if t.k == "cmp" and x in support(t):
                u = self.reduce(t)
                if u is not t:
                    if u.k == "c":
                        if bool(u.a) != b: return False
                    elif u not in self.lits and not self.assume(u, b): return False
        return True
    def find(self, x):
        while x in self.uf: x = self.uf[x]
        return x
    def _eq(self, a, b, v):
        if b.k != "c":
            if v:
                x, y = self.find(a), self.find(b)
                if x is not y: self.uf[x] = y
            else: self.neq += ((a, b),)
        (al, ah), (bl, bh) = self.rng(a), self.rng(b)
        if v:
            lo, hi = max(al, bl), min(ah, bh)
            if lo > hi: return False
            if b.k == "c" and not self.known(a, b.a): return False
            if b.k == "c" and a.k == "cat":
                p = 0
                for s, l, n in a.a:
                    if s is not None:
                        x = tm._part((s, l, n))
                        if x is not a and not self.assume(eq(x, C(n, (b.a >> p) & ((1 << n) - 1))), True): return False
                    p += n
            if not self.tighten(a, lo, hi) or not self.tighten(b, lo, hi): return False
            if b.k == "c" and a.k not in ("lin",): return True
            if a.k == "lin" or b.k == "lin":
                t = tm.sub(a, b)
                if t.k == "lin":
                    M = 1 << t.w
                    self.leq[(t.w, t.a[1])] = -t.a[0] % M
                    self.leq[(t.w, tuple((x, -f % M) for x, f in t.a[1]))] = t.a[0] % M
                    self.memo = {}
            A, Bq = self.intlin(a), self.intlin(b)
            d = dict(A[1])
            for x, f in Bq[1].items(): d[x] = d.get(x, 0) - f
            c = A[0] - Bq[0]
            return self.add_le(d, c) and self.add_le({x: -f for x, f in d.items()}, -c)
        if b.k == "c":
            if al == ah == b.a: return False
            if b.a == al: 
                if not self.tighten(a, al + 1, ah): return False
            elif b.a == ah:
                if not self.tighten(a, al, ah - 1): return False
        A, Bq = self.intlin(a), self.intlin(b)
        d = dict(A[1])
        for x, f in Bq[1].items(): d[x] = d.get(x, 0) - f
        c = A[0] - Bq[0]
        if len(d) >= 1 and self.lin:
            if b.k == "c" and a.k == "lin" and len(d) == 1:
                A = self.sintlin(a)
                if A and len(A[1]) > 1:
                    e, l = {x: f for x, f in A[1].items() if f}, A[0] - tm.sgn(b.a, b.w)
                    g = math.gcd(*e.values())
                    if l % g: return True
                    e = {x: f // g for x, f in e.items()}; l //= g
                    for e, l in ((e, l), ({x: -f for x, f in e.items()}, -l)):
                        if self.prove_le(e, l):
                            if not self.add_le(e, l + 1): return False
                            break
            if self.prove_le(d, c): return self.add_le(d, c + 1)
            n = {x: -f for x, f in d.items()}
            if self.prove_le(n, -c): return self.add_le(n, -c + 1)
        return True
