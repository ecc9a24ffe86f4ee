"""Value-number terms: the abstract value domain of the IR analysis.

A term is a hash-consed description of how a machine word is derived from the
words the analysed entry point started with.  Three canonical shapes make
differently written but equal computations meet in one term:
  cat  a concatenation of bit slices (bit provenance)
  lin  a linear combination modulo 2^w
  op   everything else, with distribution of bitwise operators over slices
"""

class T:
    __slots__ = ("k", "w", "a", "uid", "ptr", "sup", "hi0")
    def __repr__(self): return show(self)

_tab = {}
_n = [0]

def _mk(k, w, a):
    key = (k, w, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k; t.w = w; t.a = a; t.ptr = False; t.sup = None; t.hi0 = None
        _n[0] += 1
        t.uid = _n[0]
        _tab[key] = t
    return t

def C(w, v): return _mk("c", w, v & ((1 << w) - 1))
def S(w, name, ptr=False):
    t = _mk("s", w, name)
    if ptr: t.ptr = True
    return t
TRUE = C(1, 1)
FALSE = C(1, 0)
def B(b): return TRUE if b else FALSE

def isc(t): return t.k == "c"
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

# ---------------------------------------------------------------- cat / slice
def parts(t):
    if t.k == "c": return ((None, t.a, t.w),)
    if t.k == "cat": return t.a
    return ((t, 0, t.w),)

def _part(p):
    src, lo, n = p
    if src is None: return C(n, lo)
    if lo == 0 and n == src.w: return src
    return _mk("cat", n, (p,))

def _mergeable(x, y):
    """merge of two adjacent (x low, y high) parts or None"""
    (s, lo, n), (s2, lo2, n2) = x, y
    if s is None and s2 is None: return (None, lo | (lo2 << n), n + n2)
    if s is not None and s is s2 and lo + n == lo2: return (s, lo, n + n2)
    if s is not None and s2 is not None and s.k == "op" and s2.k == "op" and lo == 0 and lo2 == 0 and n == s.w and n2 == s2.w \
            and s.a[0] == s2.a[0] and s.a[0] in ("xor", "and", "or") and len(s.a) == len(s2.a):
        out = []
        rest = list(s2.a[1:])
        for u in s.a[1:]:
            hit = None
            for v in rest:
                if isc(u) and isc(v): hit = (v, C(u.w + v.w, u.a | (v.a << u.w))); break
                if not isc(u) and not isc(v):
                    pu, pv = parts(u), parts(v)
                    if len(pu) == 1 and len(pv) == 1:
                        m = pu[0][0] is pv[0][0] and pu[0][1] + pu[0][2] == pv[0][1]
                        if m: hit = (v, _part((pu[0][0], pu[0][1], pu[0][2] + pv[0][2]))); break
            if not hit: return None
            rest.remove(hit[0]); out.append(hit[1])
        t = bitop(s.a[0], *out)
        if t.k == "op": return (t, 0, t.w)
    return None

def _rejoin(q, p):
    """low bits of a sum are normalised on their own; put them back under its high bits"""
    s, l, m = p
    if s is None or s.k != "lin" or l < q[2] or q[0] is None: return None
    lo = _part(q)
    if slc(s, l - q[2], q[2]) is lo: return (s, l - q[2], q[2] + m)
    return None
def cat(ts):
    """concatenate terms, least significant first"""
    ps = []
    for t in ts:
        for p in parts(t):
            if p[2] == 0: continue
            if ps:
                m = _mergeable(ps[-1], p) or _rejoin(ps[-1], p)
                if m:
                    ps[-1] = m; continue
            ps.append(p)
    if len(ps) == 1: return _part(ps[0])
    if len(ps) < 4 and ps[-1][0] is None and not ps[-1][1]:
        # a sum that cannot overflow is the same sum in any width
        i = len(ps) - 2
        s, l, n = ps[i]
        if s is not None and s.k == "lin" and not l and n == s.w and (not i or ps[0][0] is None and not ps[0][1]) and linmax(s) >> n == 0:
            w = sum(p[2] for p in ps); f = 1 << (ps[0][2] if i else 0)
            e, d = _acc([(zext(x, w), g * f) for x, g in s.a[1]], w)
            return from_lin(w, s.a[0] * f, d, extra=e)
    return _mk("cat", sum(p[2] for p in ps), tuple(ps))

def linmax(t):
    return t.a[0] + sum(((1 << (x.w - hi0(x))) - 1) * f for x, f in t.a[1])

_slc = {}
def slc(t, lo, n):
    if lo == 0 and n == t.w: return t
    assert lo >= 0 and n > 0 and lo + n <= t.w, (t, lo, n)
    k = t.k
    if k == "c": return C(n, t.a >> lo)
    key = (t.uid, lo, n)
    r = _slc.get(key)
    if r is not None: return r
    r = _slice(t, lo, n)
    _slc[key] = r
    return r

def _slice(t, lo, n):
    k = t.k
    if k == "cat":
        out = []; pos = 0
        for (s, l, m) in t.a:
            a, b = max(lo, pos), min(lo + n, pos + m)
            if a < b:
                if s is None: out.append(C(b - a, l >> (a - pos)))
                elif s.k == "op" or s.k == "lin": out.append(slc(s, l + a - pos, b - a))
                else: out.append(_part((s, l + a - pos, b - a)))
            pos += m
        return cat(out)
    if k == "lin":
        c, d = t.a
        if lo == 0:
            e, dd = _acc([(slc(x, 0, n), f) for x, f in d], n)
            return from_lin(n, c, dd, extra=e)
        m = (1 << lo) - 1
        if c & m == 0 and all(f & m == 0 for _, f in d):
            w2 = t.w - lo
            e, dd = _acc([(slc(x, 0, w2), f >> lo) for x, f in d], w2)
            return slc(from_lin(w2, c >> lo, dd, extra=e), 0, n)
        # small terms that do not reach bit lo
        low = [(x, f) for x, f in d if f & m]; hi = [(x, f) for x, f in d if not f & m]
        if (hi or c > m) and (c & m) + sum(((1 << (x.w - hi0(x))) - 1 if not (x.k == "op" and x.a[0] == "urem" and x.a[2].k == "c" and x.a[2].a) else x.a[2].a - 1) * f for x, f in low) <= m:
            w2 = t.w - lo
            e, dd = _acc([(slc(x, 0, w2), f >> lo) for x, f in hi], w2)
            return slc(from_lin(w2, c >> lo, dd, extra=e), 0, n)
    if k == "op":
        o = t.a[0]
        if o in ("and", "or", "xor"): return bitop(o, *[slc(x, lo, n) for x in t.a[1:]])
        if o == "sext":
            x = t.a[1]
            if lo + n <= x.w: return slc(x, lo, n)
            if lo < x.w and False: pass
        if o == "ite": return ite(t.a[1], slc(t.a[2], lo, n), slc(t.a[3], lo, n))
    return _mk("cat", n, ((t, lo, n),))

def _acc(items, w):
    """sum of coef*term -> (const, dict) with terms decomposed"""
    c = 0; d = {}
    for x, f in items:
        c2, d2 = to_lin(x)
        c += c2 * f
        for y, g in d2.items(): d[y] = d.get(y, 0) + g * f
    return c, d

def zext(t, w): return t if t.w == w else cat([t, C(w - t.w, 0)])
def trunc(t, w): return slc(t, 0, w)
def sext(t, w):
    if t.w == w: return t
    if t.k == "c": return C(w, sgn(t.a, t.w))
    if hi0(t) >= 1: return zext(t, w)
    if t.k == "op" and t.a[0] == "sext": return _mk("op", w, ("sext", t.a[1]))
    return _mk("op", w, ("sext", t))

def hi0(t):
    """number of most significant bits known to be zero"""
    if t.k == "c": return t.w - t.a.bit_length()
    if t.hi0 is not None: return t.hi0
    r = 0
    if t.k == "cat":
        s, l, n = t.a[-1]
        r = n - l.bit_length() if s is None else 0
        if s is not None and l + n == s.w: r = min(n, hi0(s))
    elif t.k == "op":
        o = t.a[0]
        if o == "and": r = max(hi0(x) for x in t.a[1:])
        elif o in ("or", "xor"): r = min(hi0(x) for x in t.a[1:])
        elif o in ("udiv", "lshr"): r = hi0(t.a[1])
        elif o == "urem": r = max(hi0(t.a[1]), hi0(t.a[2]))
        elif o == "ite": r = min(hi0(t.a[2]), hi0(t.a[3]))
        elif o == "ctpop": r = max(0, t.w - 8)
    t.hi0 = r
    return r

# ---------------------------------------------------------------- lin
def to_lin(t):
    """(const, {atom: coef}) modulo 2^w"""
    if t.k == "c": return t.a, {}
    if t.k == "lin": return t.a[0], dict(t.a[1])
    if t.k == "cat":
        c = 0; d = {}; pos = 0
        ps = t.a
        if len(ps) == 1: return 0, {t: 1}
        for (s, l, n) in ps:
            if s is None: c += l << pos
            else:
                if l == 0 and pos + n == t.w and s.w == t.w and pos > 0: x = s
                else: x = zext(_part((s, l, n)), t.w)
                if pos == 0 and x is t: return 0, {t: 1}
                if x.k == "lin":
                    for y, g in x.a[1]: d[y] = d.get(y, 0) + (g << pos)
                    c += x.a[0] << pos
                else:
                    d[x] = d.get(x, 0) + (1 << pos)
            pos += n
        return c, d
    return 0, {t: 1}

def from_lin(w, c, d, extra=0):
    M = (1 << w) - 1
    c = (c + extra) & M
    d = {x: f & M for x, f in d.items() if f & M}
    if not d: return C(w, c)
    for y in [y for y in d if y.k == "op" and y.a[0] == "udiv" and y.a[2].k == "c" and y.a[2].a]:
        # x beside x/q: x is (x%q) + q*(x/q); and f*(x%q) + f*q*(x/q) is f*x
        x, q = y.a[1], y.a[2].a
        r = urem(x, y.a[2])
        if x in d:
            f = d.pop(x)
            d[r] = (d.get(r, 0) + f) & M; d[y] = (d[y] + f * q) & M
        f = d.get(r)
        if f and d[y] == f * q & M:
            del d[r]; del d[y]; d[x] = (d.get(x, 0) + f) & M
        for z in (r, y, x):
            if z in d and not d[z]: del d[z]
    if len(d) > 1:
        for y in [y for y in d if y.k == "cat" and len(y.a) == 2]:
            # f*x<l-1:0> + (f<<l)*x<:l> is f*x
            (x, l, n), z = y.a
            if x is None or not l or l + n != x.w or z[0] is not None or z[1]: continue
            lo = zext(slc(x, 0, l), w)
            f = d.get(lo)
            if f and y in d and d[y] == f << l & M:
                del d[lo]; del d[y]
                g, e = to_lin(zext(x, w)); c = (c + g * f) & M
                for q, h in e.items():
                    d[q] = (d.get(q, 0) + h * f) & M
                    if not d[q]: del d[q]
    if not d: return C(w, c)
    if len(d) == 1:
        (x, f), = d.items()
        if c == 0 and f == 1: return x
        if w == 1: return lnot(x)
    # disjoint bits -> concatenation
    occ = c; ok = True; segs = []
    for x, f in d.items():
        if f & (f - 1): ok = False; break
        p = f.bit_length() - 1
        e = min(w - hi0(x), w - p)
        m = ((1 << e) - 1) << p
        if occ & m: ok = False; break
        occ |= m; segs.append((p, e, x))
    if ok:
        segs.sort(key=lambda s: s[0])
        out = []; pos = 0
        for p, e, x in segs:
            if p > pos: out.append(C(p - pos, c >> pos))
            out.append(slc(x, 0, e)); pos = p + e
        if pos < w: out.append(C(w - pos, c >> pos))
        return cat(out)
    return _mk("lin", w, (c, tuple(sorted(d.items(), key=lambda kv: kv[0].uid))))

_memo = {}
def add(a, b):
    if a.k == "c" and b.k == "c": return C(a.w, a.a + b.a)
    if b.k == "c" and b.a == 0: return a
    if a.k == "c" and a.a == 0: return b
    key = ("+", a.uid, b.uid)
    r = _memo.get(key)
    if r is None:
        c, d = to_lin(a); c2, d2 = to_lin(b)
        for x, f in d2.items(): d[x] = d.get(x, 0) + f
        r = from_lin(a.w, c + c2, d)
        _memo[key] = r
    return r
def neg(a):
    c, d = to_lin(a)
    return from_lin(a.w, -c, {x: -f for x, f in d.items()})
def sub(a, b):
    if a is b: return C(a.w, 0)
    return add(a, neg(b))
def addc(a, n): return add(a, C(a.w, n))
def mulc(a, f):
    c, d = to_lin(a)
    return from_lin(a.w, c * f, {x: g * f for x, g in d.items()})
def mul(a, b):
    if a.k == "c": return mulc(b, a.a)
    if b.k == "c": return mulc(a, b.a)
    x, y = sorted((a, b), key=lambda t: t.uid)
    return _mk("op", a.w, ("mul", x, y))

# ---------------------------------------------------------------- bitwise
def _cuts(t):
    r = set(); p = 0
    for x in parts(t): p += x[2]; r.add(p)
    return r

def bitop(o, *xs):
    w = xs[0].w
    if len(xs) == 1: return xs[0]
    if w == 1 and o in ("and", "or"):
        return band(*xs) if o == "and" else bor(*xs)
    if w == 1 and o == "xor" and any(isc(x) for x in xs):
        v = 0; rest = []
        for x in xs:
            if isc(x): v ^= x.a
            else: rest.append(x)
        if not rest: return C(1, v)
        if len(rest) == 1: return lnot(rest[0]) if v else rest[0]
    key = (o,) + tuple(x.uid for x in xs)
    r = _memo.get(key)
    if r is not None: return r
    cuts = set()
    for x in xs: cuts |= _cuts(x)
    if o in ("and", "or"):
        # constants act per bit run
        for x in xs:
            p = 0
            for (s, l, n) in parts(x):
                if s is None:
                    prev = None
                    for i in range(n):
                        b = (l >> i) & 1
                        if b != prev: cuts.add(p + i)
                        prev = b
                p += n
    cuts.discard(0); cuts.add(w)
    cs = sorted(cuts)
    out = []; pos = 0
    for c in cs:
        n = c - pos
        if n <= 0: continue
        seg = [slc(x, pos, n) if not (pos == 0 and n == w) else x for x in xs]
        out.append(_bit1(o, n, seg)); pos = c
    r = cat(out) if len(out) > 1 else out[0]
    _memo[key] = r
    return r

def _bit1(o, n, seg):
    full = (1 << n) - 1
    v = full if o == "and" else 0
    ts = []
    if o == "xor" and n == 1:
        seg = list(seg)
        for i, x in enumerate(seg):
            while x.k == "op" and x.a[0] == "not": x = x.a[1]; v ^= 1
            seg[i] = x
    for x in seg:
        if x.k == "c":
            v = v & x.a if o == "and" else v | x.a if o == "or" else v ^ x.a
        elif x.k == "op" and x.a[0] == o:
            for y in x.a[1:]:
                if y.k == "c": v = v & y.a if o == "and" else v | y.a if o == "or" else v ^ y.a
                else: ts.append(y)
        else: ts.append(x)
    if o == "xor":
        cnt = {}
        for x in ts: cnt[x] = cnt.get(x, 0) ^ 1
        ts = [x for x in cnt if cnt[x]]
    else:
        ts = list(dict.fromkeys(ts))
        if o == "and" and v == 0: return C(n, 0)
        if o == "or" and v == full: return C(n, full)
    if not ts: return C(n, v)
    neutral = full if o == "and" else 0
    ts.sort(key=lambda t: t.uid)
    if v == neutral and len(ts) == 1: return ts[0]
    if n == 1:
        if o == "and": return band(*ts)
        if o == "or": return bor(*ts)
        if len(ts) == 1: return lnot(ts[0])
    if v != neutral: ts.append(C(n, v))
    return _mk("op", n, (o,) + tuple(ts))

def and_(a, b): return bitop("and", a, b)
def or_(a, b): return bitop("or", a, b)
def xor(a, b): return bitop("xor", a, b)
def inv(a): return xor(a, C(a.w, -1))
def shl(a, k):
    return C(a.w, 0) if k >= a.w else a if k == 0 else cat([C(k, 0), slc(a, 0, a.w - k)])
def lshr(a, k):
    return C(a.w, 0) if k >= a.w else a if k == 0 else cat([slc(a, k, a.w - k), C(k, 0)])
def ashr(a, k):
    if a.k == "c": return C(a.w, sgn(a.a, a.w) >> k)
    if k == 0: return a
    if hi0(a) >= 1: return lshr(a, k)
    return _mk("op", a.w, ("ashr", a, C(a.w, k)))
def bswap(a):
    return cat([slc(a, a.w - 8 * (i + 1), 8) for i in range(a.w // 8)])
def op(name, w, *args): return _mk("op", w, (name,) + args)

def udiv(a, b):
    if isc(b) and b.a:
        if isc(a): return C(a.w, a.a // b.a)
        if b.a & (b.a - 1) == 0: return lshr(a, b.a.bit_length() - 1)
        h = hi0(a)
        if h and h < a.w:
            n = max(a.w - h, b.a.bit_length())
            if n < a.w: return zext(udiv(slc(a, 0, n), C(n, b.a)), a.w)
    return op("udiv", a.w, a, b)
def urem(a, b):
    if isc(b) and b.a:
        if isc(a): return C(a.w, a.a % b.a)
        if b.a & (b.a - 1) == 0: return and_(a, C(a.w, b.a - 1))
        h = hi0(a)
        if h and h < a.w:
            n = max(a.w - h, b.a.bit_length())
            if n < a.w: return zext(urem(slc(a, 0, n), C(n, b.a)), a.w)
    return op("urem", a.w, a, b)
def sdiv(a, b):
    if isc(a) and isc(b) and b.a:
        x, y = sgn(a.a, a.w), sgn(b.a, b.w)
        q = abs(x) // abs(y)
        return C(a.w, q if (x < 0) == (y < 0) else -q)
    if isc(b) and b.a == 1: return a
    if hi0(a) >= 1 and hi0(b) >= 1: return udiv(a, b)
    return op("sdiv", a.w, a, b)
def srem(a, b):
    if isc(a) and isc(b) and b.a:
        x, y = sgn(a.a, a.w), sgn(b.a, b.w)
        r = abs(x) % abs(y)
        return C(a.w, -r if x < 0 else r)
    if hi0(a) >= 1 and hi0(b) >= 1: return urem(a, b)
    return op("srem", a.w, a, b)

# ---------------------------------------------------------------- booleans
def lnot(t):
    if t.k == "c": return C(1, 1 - t.a)
    if t.k == "op" and t.a[0] == "not": return t.a[1]
    if t.k == "op" and t.a[0] == "xor" and isc(t.a[-1]): return eq(t, C(1, 0))
    return _mk("op", 1, ("not", t))
def band(*ts):
    out = []
    for t in ts:
        if t.k == "c":
            if not t.a: return FALSE
            continue
        if t.k == "op" and t.a[0] == "band": out += [x for x in t.a[1:] if x not in out]
        elif t not in out: out.append(t)
    for t in out:
        if lnot(t) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _mk("op", 1, ("band",) + tuple(out))
def bor(*ts): return lnot(band(*[lnot(t) for t in ts]))
def ite(c, a, b):
    if c.k == "c": return a if c.a else b
    if a is b: return a
    if a.w == 1: return bor(band(c, a), band(lnot(c), b))
    if c.k == "op" and c.a[0] == "not": return ite(c.a[1], b, a)
    return _mk("op", a.w, ("ite", c, a, b))

def isobj(x): return x.k == "s" and x.w == 64 and x.a[:1] in ("&", "@")

def eq(a, b):
    if a is b: return TRUE
    if a.k == "c" and b.k == "c": return B(a.a == b.a)
    if a.k == "c": a, b = b, a
    if a.w == 1:
        if b.k == "c":
            if a.k == "op" and a.a[0] == "xor" and isc(a.a[-1]):        # bit xor 1 is the complement
                return eq(bitop("xor", *a.a[1:-1]) if len(a.a) > 3 else a.a[1], C(1, b.a ^ a.a[-1].a))
            return a if b.a else lnot(a)
        if a.k == "op" and a.a[0] == "not" and b.k == "op" and b.a[0] == "not": a, b = a.a[1], b.a[1]
    if a.k == "op" and a.a[0] == "ite" and b.k == "c" and (isc(a.a[2]) or isc(a.a[3])):
        return ite(a.a[1], eq(a.a[2], b), eq(a.a[3], b))
    if a.k == "cat" and b.k == "cat" and a.w <= 64 and (len(a.a) > 1 or len(b.a) > 1):
        ca, cb = _cuts(a), _cuts(b)
        cs = sorted(ca | cb)
        if 1 < len(cs) <= 8 and (ca <= cb or cb <= ca):
            out = []; pos = 0
            for e in cs:
                out.append(eq(slc(a, pos, e - pos), slc(b, pos, e - pos))); pos = e
            return band(*out)
    if a.k == "cat" and b.k == "cat" and len(a.a) == 1 and len(b.a) == 1:
        # the same bits of sums of different width: the bits above them do not matter
        (x, l, n), (y, m, _) = a.a[0], b.a[0]
        if l == m and x.w != y.w and "lin" in (x.k, y.k) and slc(x, 0, l + n) is slc(y, 0, l + n): return TRUE
    if a.k == "cat" and b.k == "c" and any(p[0] is not None and p[0].k == "op" and p[0].a[0] == "xor" for p in a.a) and len(a.a) > 1:
        out = []; pos = 0
        for p in a.a:
            out.append(eq(_part(p), C(p[2], b.a >> pos))); pos += p[2]
        return band(*out)
    if a.k == "cat" and b.k == "c":
        keep = []; val = 0; pos = 0; kw = 0
        for p in a.a:
            bits = (b.a >> pos) & ((1 << p[2]) - 1)
            if p[0] is None:
                if p[1] != bits: return FALSE
            else:
                keep.append(_part(p)); val |= bits << kw; kw += p[2]
            pos += p[2]
        if len(keep) == 1:
            x = keep[0]
            if x is not a: return eq(x, C(x.w, val))
        elif kw != a.w:
            # keep the multi-slice form as a conjunction-like single literal
            x = cat(keep)
            return eq(x, C(x.w, val)) if x.w != a.w else _mk("cmp", 1, ("eq", x, C(x.w, val)))
        if all(k.w == 1 for k in keep): return band(*[eq(k, C(1, (val >> i) & 1)) for i, k in enumerate(keep)])
        return _mk("cmp", 1, ("eq", a, b))
    h = min(hi0(a), hi0(b))
    if h and h < a.w: return eq(slc(a, 0, a.w - h), slc(b, 0, a.w - h))
    if a.k == "op" and a.a[0] == "xor" and b.k == "c" and isc(a.a[-1]):
        return eq(bitop("xor", *a.a[1:-1]) if len(a.a) > 3 else a.a[1], C(a.w, b.a ^ a.a[-1].a))
    if a.k == "op" and a.a[0] == "xor" and len(a.a) == 3 and b.k == "c" and b.a == 0: return eq(a.a[1], a.a[2])
    if a.k == "op" and a.a[0] == "sext" and b.k == "c":
        x = a.a[1]; lowv = b.a & ((1 << x.w) - 1)
        if C(a.w, sgn(lowv, x.w)).a != b.a: return FALSE
        return eq(x, C(x.w, lowv))
    c, d = to_lin(a); c2, d2 = to_lin(b)
    for x, f in d2.items(): d[x] = d.get(x, 0) - f
    M = (1 << a.w) - 1
    d = {x: f & M for x, f in d.items() if f & M}
    c = (c - c2) & M
    if not d: return B(c == 0)
    if len(d) == 2 and a.w == 64:
        (x, f), (y, g) = d.items()
        # addresses of two distinct objects
        if (f + g) & M == 0 and (f == 1 or g == 1) and isobj(x) and isobj(y): return FALSE
    if len(d) == 1:
        (x, f), = d.items()
        if f == 1: return _eqc(x, C(a.w, -c))
        if f == M: return _eqc(x, C(a.w, c))
    if len(d) == 2 and c == 0:
        (x, f), (y, g) = d.items()
        if (f + g) & M == 0 and (f == 1 or g == 1):
            if x.uid > y.uid: x, y = y, x
            return _mk("cmp", 1, ("eq", x, y))
    # divide common power of two where all terms are bounded: keep as is
    items = sorted(d.items(), key=lambda kv: kv[0].uid)
    if items[0][1] >> (a.w - 1):
        c = (-c) & M; d = {x: (-f) & M for x, f in d.items()}
    if c or len(d) > 1:
        r = from_lin(a.w, 0, d)
        if r.k == "cat": return eq(r, C(a.w, -c))
    return _mk("cmp", 1, ("eq", from_lin(a.w, c, d), C(a.w, 0)))
def _eqc(x, c):
    if x.k == "cat": return eq(x, c)
    if x.k == "op" and (x.a[0] == "sext" or x.a[0] == "xor" and (isc(x.a[-1]) or len(x.a) == 3 and c.a == 0)): return eq(x, c)
    h = hi0(x)
    if h:
        if c.a.bit_length() > x.w - h: return FALSE
    return _mk("cmp", 1, ("eq", x, c))
def ne(a, b): return lnot(eq(a, b))
def ult(a, b):
    if a is b: return FALSE
    if a.k == "c" and b.k == "c": return B(a.a < b.a)
    if b.k == "c" and b.a == 0: return FALSE
    if b.k == "c" and b.a == 1: return eq(a, C(a.w, 0))
    if a.k == "c" and b.k == "lin" and b.a[0]: return lnot(ult(b, C(a.w, a.a + 1)))
    if b.k == "c" and b.a >> (a.w - 1) and a.k == "lin" and a.a[0]: return lnot(ult(sub(a, b), C(a.w, -b.a)))
    if a.k == "c" and a.a == 0: return ne(b, C(b.w, 0))
    if a.k == "c" and a.a == (1 << a.w) - 1: return FALSE
    h = min(hi0(a), hi0(b))
    if h and h < a.w: return ult(slc(a, 0, a.w - h), slc(b, 0, a.w - h))
    if b.k == "c" and hi0(a) and b.a >> (a.w - hi0(a)): return TRUE
    # x < 2^k with k: top bits zero
    if b.k == "c" and b.a & (b.a - 1) == 0:
        k = b.a.bit_length() - 1
        if a.k == "op" and a.a[0] == "or": return band(*(ult(x, b) for x in a.a[1:]))
        if a.k in ("cat",): return eq(slc(a, k, a.w - k), C(a.w - k, 0))
    # 2^k - 1 < x: some top bit set
    if a.k == "c" and a.a & (a.a + 1) == 0 and b.k == "cat":
        k = a.a.bit_length()
        return ne(slc(b, k, b.w - k), C(b.w - k, 0))
    return _mk("cmp", 1, ("ult", a, b))
def ule(a, b): return lnot(ult(b, a))
def slt(a, b):
    if a is b: return FALSE
    if a.k == "c" and b.k == "c": return B(sgn(a.a, a.w) < sgn(b.a, b.w))
    if hi0(a) >= 1 and hi0(b) >= 1: return ult(a, b)
    if b.k == "c" and b.a == 0 and a.k in ("s", "m", "cat", "op") : return eq(slc(a, a.w - 1, 1), C(1, 1))
    if a.k == "c" and a.a == (1 << a.w) - 1: return lnot(slt(b, C(b.w, 0)))
    if a.k == "op" and a.a[0] == "sext" and (b.k == "c" or (b.k == "op" and b.a[0] == "sext" and b.a[1].w == a.a[1].w)):
        x = a.a[1]
        if b.k != "c": return slt(x, b.a[1])
        v = sgn(b.a, b.w)
        if v > (1 << (x.w - 1)) - 1: return TRUE
        if v <= -(1 << (x.w - 1)): return FALSE
        return slt(x, C(x.w, v))
    if b.k == "op" and b.a[0] == "sext" and a.k == "c":
        x = b.a[1]; v = sgn(a.a, a.w)
        if v < -(1 << (x.w - 1)): return TRUE
        if v >= (1 << (x.w - 1)) - 1: return FALSE
        return slt(C(x.w, v), x)
    return _mk("cmp", 1, ("slt", a, b))
def sle(a, b): return lnot(slt(b, a))
def icmp(p, a, b):
    if p == "eq": return eq(a, b)
    if p == "ne": return ne(a, b)
    if p == "ult": return ult(a, b)
    if p == "ugt": return ult(b, a)
    if p == "ule": return ule(a, b)
    if p == "uge": return ule(b, a)
    if p == "slt": return slt(a, b)
    if p == "sgt": return slt(b, a)
    if p == "sle": return sle(a, b)
    if p == "sge": return sle(b, a)
    raise ValueError(p)

# ---------------------------------------------------------------- support / evaluation
def kids(t):
    if t.k == "cat": return [p[0] for p in t.a if p[0] is not None]
    if t.k == "lin": return [x for x, _ in t.a[1]]
    if t.k in ("op", "cmp"): return [x for x in t.a[1:] if isinstance(x, T)]
    return []
def support(t):
    """frozenset of leaf atoms"""
    if t.sup is None:
        if t.k == "c": t.sup = frozenset()
        elif t.k in ("s", "m"): t.sup = frozenset((t,))
        else:
            s = frozenset()
            for x in kids(t): s |= support(x)
            t.sup = s
    return t.sup

def ev(t, env):
    """concrete value of a term under an assignment of its leaves"""
    k = t.k
    if k == "c": return t.a
    if k in ("s", "m"): return env[t]
    if k == "cat":
        v = 0; pos = 0
        for (s, l, n) in t.a:
            v |= (l if s is None else (ev(s, env) >> l) & ((1 << n) - 1)) << pos
            pos += n
        return v
    M = (1 << t.w) - 1
    if k == "lin": return (t.a[0] + sum(ev(x, env) * f for x, f in t.a[1])) & M
    o = t.a[0]
    if o == "ite": return ev(t.a[2], env) if ev(t.a[1], env) else ev(t.a[3], env)
    xs = [ev(x, env) for x in t.a[1:]]
    if k == "cmp":
        w = t.a[1].w
        if o == "eq": return int(xs[0] == xs[1])
        if o == "ult": return int(xs[0] < xs[1])
        return int(sgn(xs[0], w) < sgn(xs[1], w))
    if o == "and":
        r = M
        for x in xs: r &= x
        return r
    if o == "or":
        r = 0
        for x in xs: r |= x
        return r
    if o == "xor":
        r = 0
        for x in xs: r ^= x
        return r
    if o == "not": return 1 - xs[0]
    if o == "band": return int(all(xs))
    if o == "bxor": return xs[0] ^ xs[1]
    if o == "sext": return sgn(xs[0], t.a[1].w) & M
    if o == "mul": return (xs[0] * xs[1]) & M
    if o == "udiv": return xs[0] // xs[1] if xs[1] else 0
    if o == "urem": return xs[0] % xs[1] if xs[1] else 0
    if o in ("sdiv", "srem"): return (sdiv if o == "sdiv" else srem)(C(t.w, xs[0]), C(t.w, xs[1])).a if xs[1] else 0
    if o == "ashr": return (sgn(xs[0], t.w) >> xs[1]) & M
    if o == "lshr": return xs[0] >> xs[1]
    if o == "shl": return (xs[0] << xs[1]) & M
    if o == "ctpop": return bin(xs[0]).count("1")
    raise KeyError(o)

EVALUABLE = {"and", "or", "xor", "not", "band", "bxor", "sext", "mul", "udiv", "urem", "sdiv", "srem", "ashr", "lshr", "shl", "ctpop", "eq", "ult", "slt", "ite"}
_evl = {}
def evaluable(t):
    r = _evl.get(t)
    if r is None:
        r = (t.k not in ("op", "cmp") or t.a[0] in EVALUABLE) and all(evaluable(x) for x in kids(t))
        _evl[t] = r
    return r
_ites = {}
def ites(t):
    """the conditional subterms of t (outermost first)"""
    r = _ites.get(t)
    if r is None:
        out = {}
        if t.k == "op" and t.a[0] == "ite": out[t] = 1
        for x in kids(t):
            for y in ites(x): out[y] = 1
        r = tuple(out) if len(out) <= 40 else ()
        _ites[t] = r
    return r
_sexts = {}
def sexts(t):
    """the sign extensions in t"""
    r = _sexts.get(t)
    if r is None:
        out = {}
        if t.k == "op" and t.a[0] == "sext": out[t] = 1
        for x in kids(t):
            for y in sexts(x): out[y] = 1
        r = tuple(out) if len(out) <= 40 else ()
        _sexts[t] = r
    return r
_bits = {}
def bitwise(t):
    """does t combine bits of several words"""
    r = _bits.get(t)
    if r is None: r = _bits[t] = t.k == "op" and t.a[0] in ("or", "and", "xor") or any(bitwise(x) for x in kids(t))
    return r
_truth = {}
def truth8(t):
    """(atom, bitmask of values for which t holds) when t depends on one small atom"""
    r = _truth.get(t)
    if r is None:
        s = support(t)
        r = False
        if len(s) == 1:
            x, = s
            if x.w <= 8 and evaluable(t):
                m = 0
                for v in range(1 << x.w):
                    if ev(t, {x: v}): m |= 1 << v
                r = (x, m)
        _truth[t] = r
    return r

def subst(t, m, _c=None):
    """replace leaves/terms by m"""
    if _c is None: _c = {}
    r = m.get(t)
    if r is not None: return r
    r = _c.get(t)
    if r is not None: return r
    k = t.k
    if k in ("c", "s"): r = t
    elif k == "m": r = t if not (isinstance(t.a[2], T)) else _mk("m", t.w, (t.a[0], t.a[1], subst(t.a[2], m, _c)))
    elif k == "cat": r = cat([C(n, l) if s is None else slc(subst(s, m, _c), l, n) for s, l, n in t.a])
    elif k == "lin":
        c, d = t.a
        r = C(t.w, c)
        for x, f in d: r = add(r, mulc(subst(x, m, _c), f))
    else:
        o = t.a[0]; xs = [subst(x, m, _c) if isinstance(x, T) else x for x in t.a[1:]]
        if o in ("and", "or", "xor"): r = bitop(o, *xs)
        elif o == "not": r = lnot(xs[0])
        elif o == "band": r = band(*xs)
        elif o == "eq": r = eq(*xs)
        elif o == "ult": r = ult(*xs)
        elif o == "slt": r = slt(*xs)
        elif o == "sext": r = sext(xs[0], t.w)
        elif o == "ite": r = ite(*xs)
        elif o == "mul": r = mul(*xs)
        elif o == "udiv": r = udiv(*xs)
        elif o == "urem": r = urem(*xs)
        elif o == "sdiv": r = sdiv(*xs)
        elif o == "srem": r = srem(*xs)
        elif o == "bxor":
            x, y = xs
            if x is y or x.k == "op" and y.k == "op" and x.a[0] == y.a[0] == "band" and set(x.a[1:]) == set(y.a[1:]): r = FALSE
            elif isc(x): r = lnot(y) if x.a else y
            elif isc(y): r = lnot(x) if y.a else x
            else: r = _mk(k, t.w, (o,) + tuple(xs))
        elif o == "ashr" and isc(xs[1]): r = ashr(xs[0], xs[1].a)
        else: r = _mk(k, t.w, (o,) + tuple(xs))
    _c[t] = r
    return r

def show(t, d=0):
    if not isinstance(t, T): return repr(t)
    if d > 9: return "…"
    k = t.k
    if k == "c": return f"{t.a}" if t.a < 4096 else hex(t.a)
    if k == "s": return str(t.a)
    if k == "m": return f"{t.a[0]}[{show(t.a[2], d+1) if isinstance(t.a[2], T) else t.a[2]}]" + (f"'{t.a[1]}" if t.a[1] else "")
    if k == "cat":
        if len(t.a) == 2 and t.a[1][0] is None and t.a[1][1] == 0 and t.a[0][0] is not None:
            s, l, n = t.a[0]
            return show(s, d + 1) + ("" if l == 0 and n == s.w else f"<{l+n-1}:{l}>")
        return "{" + ",".join(f"{show(C(n, l))}#{n}" if s is None else show(s, d + 1) + ("" if l == 0 and n == s.w else f"<{l+n-1}:{l}>") for s, l, n in reversed(t.a)) + "}"
    if k == "lin":
        c, ds = t.a
        out = []
        for x, f in ds:
            f = sgn(f, t.w)
            out.append((("" if f == 1 else "-" if f == -1 else f"{f}*") + show(x, d + 1)))
        if c: out.append(str(sgn(c, t.w)))
        return "(" + " + ".join(out) + ")"
    if k == "cmp": return "(" + show(t.a[1], d + 1) + {"eq": "==", "ult": "<u", "slt": "<s"}[t.a[0]] + show(t.a[2], d + 1) + ")"
    if t.a[0] == "not": return "!" + show(t.a[1], d + 1)
    return f"{t.a[0]}(" + ", ".join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.a[1:]) + ")"
