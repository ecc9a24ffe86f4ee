"""fw_prove / fw_assume / fw_cover: obligations written next to the entry points.
A harness entry states a rule over the public API; the interpreter must show the
condition from the path facts on every abstract path that reaches it."""
from .terms import *
from . import terms as tm
from .engine import Ev
from .stdmodel import cstring, done

def lit(E, p):
    o, off = E.resolve(p)
    r = cstring(E, o, off)
    return r.decode() if r is not None else "?"

def norm(f, t):
    """slices that the facts show to be constant or to lose nothing are simplified"""
    for _ in range(4):
        m = {}; st = [t]; seen = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.k == "cat":
                ps = []; ch = False
                for s, l, n in x.a:
                    if s is not None:
                        a, b = f.rng(s)
                        if a >> l == b >> l: ps.append((None, (a >> l) & ((1 << n) - 1), n)); ch = True; continue
                    ps.append((s, l, n))
                if ps[0][0] is not None and ps[0][1] == 0 and all(q[0] is None and q[1] == 0 for q in ps[1:]):
                    s, l, n = ps[0]
                    if f.rng(s)[1] < 1 << n and (s.w != n or len(ps) > 1):
                        y = zext(s, x.w) if s.w <= x.w else slc(s, 0, x.w)
                        if y is not x: m[x] = y; st += list(tm.kids(x)); continue
                if ch: m[x] = cat([C(n, l) if s is None else slc(s, l, n) for s, l, n in ps])
            elif x.k == "op" and x.a[0] in ("udiv", "urem") and x.a[2].k == "c" and x.a[2].a:
                a, b = f.rng(x.a[1]); d = x.a[2].a
                if a // d == b // d: m[x] = C(x.w, a // d) if x.a[0] == "udiv" else addc(x.a[1], -(a // d) * d)
            st += list(tm.kids(x))
        if not m: return t
        u = subst(t, m)
        if u is t: return t
        t = u
    return t
def small(t):
    """truth table over one leaf of at most 16 bits"""
    s = support(t)
    if len(s) != 1: return None
    x, = s
    if x.w > 16 or not evaluable(t): return None
    return x

def decide(facts, t, budget=None, want=True):
    """is t implied by the facts (want) / refuted"""
    v = facts.val(t)
    if v is not None: return v is want
    if budget is None: budget = [200]
    if budget[0] <= 0: return False
    budget[0] -= 1
    u = norm(facts, t)
    if u is not t:
        v = facts.val(u)
        if v is not None: return v is want
        t = u
    f = facts.copy()
    if not f.assume(t, not want): return True
    if contradictory(f): return True
    u = nonneg_div(f, t)
    if u is not t:
        v = f.val(u)
        if v is not None: return v is want
        t = u
        if not f.assume(t, not want) or contradictory(f): return True
    m = rewrites(f)
    if m:
        u = subst(t, m)
        if u is not t:
            v = f.val(u)
            if v is not None: return v is want
            g = f.copy()
            if not g.assume(u, not want) or contradictory(g): return True
    # truth table
    x = small(t)
    if x is not None and x.w > 8:
        lo, hi = f.rng(x)
        lits = [(q, b) for q, b in f.lits.items() if x in support(q) and len(support(q)) == 1 and evaluable(q)]
        ok = True
        for n in range(lo, hi + 1):
            env = {x: n}
            if all(bool(ev(q, env)) == b for q, b in lits if q is not t):
                if bool(ev(t, env)) != want: ok = False; break
        return ok
    # case split on an undecided sub-condition
    for c in splits(t, f):
        a, b = f.copy(), f.copy()
        ra = not a.assume(c, True) or contradictory(a) or implied(a, t, want, budget)
        if not ra: return False
        rb = not b.assume(c, False) or contradictory(b) or implied(b, t, want, budget)
        return rb
    return False
def srng(f, x):
    lo, hi = f.rng(x); half = 1 << (x.w - 1)
    if hi < half: return lo, hi
    if lo >= half: return lo - 2 * half, hi - 2 * half
    for t, (a, b) in f.iv.items():
        if t.k == "lin" and t.w == x.w and len(t.a[1]) == 1 and t.a[1][0][0] is x and t.a[1][0][1] == 1:
            c = sgn(t.a[0], x.w)
            p, q = a - c, b - c
            if -half <= p and q < half: return p, q
    return -half, half - 1
def resign(f):
    """signed comparisons propagate again once signs are known"""
    for q, b in list(f.lits.items()):
        if q.k == "cmp" and q.a[0] == "slt":
            del f.lits[q]
            if not f.assume(q, b): return False
            f.lits[q] = b
    return True
def nonneg_div(f, t):
    """signed division of provably non-negative values is unsigned; remainders become linear"""
    m = {}
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.k == "op" and x.a[0] in ("sdiv", "srem", "urem"):
            a, b = x.a[1], x.a[2]
            if x.a[0] == "sdiv" and b.k == "c" and b.a:
                c, d = to_lin(a)
                if c == 0 and len(d) == 1:
                    (y, k), = d.items()
                    k = sgn(k, x.w); bb = sgn(b.a, x.w)
                    lo, hi = srng(f, y)
                    lim = (1 << (x.w - 1)) - 1
                    if k % bb == 0 and max(abs(lo * k), abs(hi * k)) <= lim:
                        m[x] = mulc(y, k // bb); st += list(tm.kids(x)); continue
            half = 1 << (x.w - 1)
            if f.rng(b)[0] > 0 and (x.a[0] == "urem" or f.rng(a)[1] < half and f.rng(b)[1] < half):
                q = udiv(a, b)
                m[x] = q if x.a[0] == "sdiv" else sub(a, mul(q, b))
            elif x.a[0] == "srem": m[x] = sub(a, mul(sdiv(a, b), b))
        st += list(tm.kids(x))
    return floor_div(f, subst(t, m) if m else t)
def quotient(f, y):
    """what a quotient is: 0 <= x - k*(x/k) < k"""
    if y.k == "op" and y.a[0] == "udiv" and y.a[2].k == "c" and y.a[2].a:
        k = y.a[2].a; z, e = f.intlin(y.a[1])
        lo = {g: -h for g, h in e.items()}; lo[y] = lo.get(y, 0) + k
        hi = dict(e); hi[y] = hi.get(y, 0) - k
        f.add_le(lo, -z); f.add_le(hi, z - k + 1)
def floor_div(f, t):
    """(q*P + R) / q of a non-negative sum is P + R/q, for R not negative either"""
    done = set()
    while True:
        st = [t]; seen = set(); pick = None
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.k == "op" and x.a[0] == "sdiv" and x not in done and x.a[2].k == "c" and 0 < x.a[2].a < 1 << (x.w - 1) and x.a[1].k == "lin":
                if pick is None or x.uid < pick.uid: pick = x       # parts are older than what they are part of
            st += list(tm.kids(x))
        if pick is None: return t
        done.add(pick)
        a, q = pick.a[1], pick.a[2].a
        c, d = to_lin(a)
        P = {y: sgn(k, a.w) // q for y, k in d.items() if sgn(k, a.w) % q == 0}
        R = {y: k for y, k in d.items() if y not in P}
        if not P or not R: continue
        for y in P: quotient(f, y)
        A, r = f.sintlin(a), tm.from_lin(a.w, c, R)
        B = f.sintlin(r)
        if A is None or B is None: continue
        if not all(f.prove_le({y: -k for y, k in e.items()}, -z) for z, e in (A, B)): continue
        n = udiv(r, pick.a[2])
        quotient(f, n)
        for y, k in P.items(): n = add(n, mulc(y, k & ((1 << a.w) - 1)))
        t = subst(t, {pick: n})
def rewrites(f):
    """known slices of leaves: leaf -> concatenation with the known parts replaced"""
    sl = {}
    def slice_of(t):
        if t.k in ("s", "m"): return t, 0, t.w
        if t.k == "cat" and len(t.a) == 1 and t.a[0][0] is not None and t.a[0][0].k in ("s", "m"): return t.a[0]
        return None
    def put(x, y):
        r = slice_of(x)
        if r is None: return
        if y.k != "c":
            q = slice_of(y)
            if q is None or q[0] is r[0]: return
            if q[0].uid > r[0].uid: r, y = q, x
        l = sl.setdefault(r[0], [])
        if any(a < r[1] + r[2] and r[1] < a + n for a, n, _ in l): return
        l.append((r[1], r[2], y))
    for q, b in f.lits.items():
        if b and q.k == "cmp" and q.a[0] == "eq":
            x, y = q.a[1], q.a[2]
            if x.k == "cat" and y.k == "c":
                pos = 0
                for p in x.a:
                    if p[0] is not None: put(tm._part(p), C(p[2], y.a >> pos))
                    pos += p[2]
            else: put(x, y)
        elif not b and q.k == "cmp" and q.a[0] == "eq" and q.a[1].w == 1 and isc(q.a[2]): put(q.a[1], C(1, 1 - q.a[2].a))
    m = {}
    for x, l in sl.items():
        out = []; pos = 0
        for a, n, y in sorted(l, key=lambda z: z[0]):
            if a > pos: out.append(slc(x, pos, a - pos))
            out.append(y); pos = a + n
        if pos < x.w: out.append(slc(x, pos, x.w - pos))
        m[x] = cat(out)
    return m
def implied(f, t, want, budget):
    """f already contains not-want(t); only further splitting can refute it"""
    if budget[0] <= 0: return False
    budget[0] -= 1
    if not resign(f): return True
    u = nonneg_div(f, t)
    if u is not t:
        if not f.assume(u, not want) or contradictory(f): return True
    for c in splits(t, f):
        a, b = f.copy(), f.copy()
        ra = not a.assume(c, True) or contradictory(a) or implied(a, t, want, budget)
        if not ra: return False
        return not b.assume(c, False) or contradictory(b) or implied(b, t, want, budget)
    return False
_sd = {}
def signed_div(t):
    r = _sd.get(t.uid)
    if r is None:
        r = _sd[t.uid] = t.k == "op" and t.a[0] in ("sdiv", "srem") or any(signed_div(x) for x in tm.kids(t))
    return r
def contradictory(f):
    """re-evaluate recorded facts against the refined domains"""
    for q, b in list(f.lits.items()):
        if q.k == "cmp" and signed_div(q):
            u = nonneg_div(f, q)
            if u is not q and (f.val(u) is (not b) or not f.assume(u, b)): return True
        if q.k == "op" and q.a[0] in ("band",):
            vs = [f.val(x) for x in q.a[1:]]
            if b and False in vs: return True
            if not b and all(v is True for v in vs): return True
        elif q.k == "cmp":
            del f.lits[q]
            v = f.val(q)
            f.lits[q] = b
            if v is not None and v != b: return True
    return False
def splits(t, f):
    """boolean sub-terms worth splitting on"""
    st = [t] + [q for q in f.lits if q.k == "cmp" and q.a[0] == "slt"]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.k == "cmp" and x.a[0] == "slt" or x.k == "op" and x.a[0] in ("sdiv", "srem", "sext"):
            for y in x.a[1:]:
                if isinstance(y, T):
                    for z in support(y):
                        q = eq(slc(z, z.w - 1, 1), C(1, 1))
                        if z.w > 1 and f.val(q) is None: yield q
        st += list(tm.kids(x))
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.k == "op" and x.a[0] == "ite":
            if f.val(x.a[1]) is None: yield x.a[1]
        elif x.k == "op" and x.a[0] in ("band", "bxor", "not"):
            for y in x.a[1:]:
                if y.k == "cmp" and f.val(y) is None: yield y
        elif x.w == 1 and x.k == "cmp" and x is not t and f.val(x) is None: yield x
        st += list(tm.kids(x))
    for q, b in f.lits.items():
        if not b and q.k == "op" and q.a[0] == "band":
            for y in q.a[1:]:
                if f.val(y) is None: yield y

def h_prove(E, st, f, ins, fn, args):
    c = args[1]
    c = slc(c, 0, 1) if c.w > 1 else c
    ok = decide(st.facts, c)
    e = Ev("prove", lit(E, args[0]), (c,), loc=E.loc(st), x={"ok": ok, "trail": st.trail, "facts": st.facts.copy() if not ok else None, "chain": E.chain(st)})
    st.emit(e)
    E.proves.append(e)
    return done(E, st, f, ins)
def h_assume(E, st, f, ins, fn, args):
    c = slc(args[0], 0, 1) if args[0].w > 1 else args[0]
    if not st.facts.assume(c, True): st.status = "unreach"; st.why = "assume"; return []
    return done(E, st, f, ins)
def h_mark(E, st, f, ins, fn, args):
    st.emit(Ev("mark", lit(E, args[0]), tuple(args[1:]), loc=E.loc(st), mem=dict(st.mem)))
    return done(E, st, f, ins)
def h_order(E, st, f, ins, fn, args):
    """unspecified container order: every order when the check asks for it, else newest first"""
    if not getattr(E, "orders", False): return done(E, st, f, ins, C(E.bits(ins["t"]), 0))
    s2 = st.copy()
    done(E, st, f, ins, C(E.bits(ins["t"]), 0)); done(E, s2, s2.frames[-1], ins, C(E.bits(ins["t"]), 1))
    return [st, s2]
def within(f, off, n, size):
    if decide(f, ule(off, size)) and decide(f, ule(n, sub(size, off))): return True
    w = off.w
    if n.k == "c" and off.k == "cat" and off.a[0][0] is None and off.a[0][2] > 1:
        # off is aligned to 2^p but for a constant: the aligned blocks around the access lie inside
        for p in range(min(off.a[0][2], 16), 1, -1):
            if p >= w: continue
            m = (1 << p) - 1; blocks = ((off.a[0][1] & m) + n.a + m) >> p
            o, z = lshr(off, p), lshr(size, p)
            x, lo, k = off.a[1]
            if p == off.a[0][2] and len(off.a) == 2 and x is not None and lo == 0 and x.w == w and f.rng(x)[1] < 1 << k: o = x
            if decide(f, ule(o, z)) and decide(f, ule(C(w, blocks), sub(z, o))): return True
    if n.k == "c" and size.k != "c" and off.k != "c":
        # the bytes behind the last whole block: size = B + rest with B a multiple of the block, off = B + r, r + n <= rest
        for p in (3, 2, 4, 1):
            rest = zext(slc(size, 0, p), w); B = shl(lshr(size, p), p)
            r = sub(off, B); rs = [r]
            for (lw, items), v in f.leq.items():
                if lw != w: continue
                L = C(w, -v)
                for x, k in items: L = add(L, mul(x, C(w, k)))
                q = add(r, L)
                if len(support(q)) < len(support(r)): rs.append(q)
            for r in rs:
                if f.rng(r)[1] < 1 << p and decide(f, ule(r, rest)) and decide(f, ule(n, sub(rest, r))): return True
    if n.k == "c" and n.a == 1 and off.k != "c":
        # a byte lies inside when the aligned pair around it does
        l = slc(off, 0, 1)
        if l.k == "c": return within(f, addc(off, -l.a), C(n.w, 2), size)
    if n.k != "c" or n.a & 1 or slc(off, 0, 1) is not C(1, 0) or slc(n, w - 1, 1) is not C(1, 0): return False
    # an even offset and an even length: it is enough that half of them fit half the size.
    # The half offset may be replaced by something not smaller, the half size by something not larger
    h, s, n = slc(off, 1, w - 1), slc(size, 1, w - 1), C(w - 1, n.a >> 1)
    hs, ss = [h], [s]
    if h.k == "cat":
        x, lo, m = h.a[0]
        if x is not None and lo == 0 and all(p[0] is None and p[1] == 0 for p in h.a[1:]): hs += [zext(slc(x, 0, k), w - 1) for k in sorted({min(x.w, w - 1), 32, 16}) if m < k <= min(x.w, w - 1)]
    for m in (32, 16): ss.append(zext(slc(size, 1, m), w - 1))
    return any(decide(f, ule(a, b)) and decide(f, ule(n, sub(b, a))) for a in hs for b in ss)
def h_require(E, st, f, ins, fn, args):
    """a read or subview that is assured to lie within its view: offset <= size and length <= size - offset"""
    size, off, n = args[1], args[2], args[3]
    ok = within(st.facts, off, n, size)
    e = Ev("require", "view", (size, off, n), loc=E.loc(st), x={"ok": ok, "facts": None if ok else st.facts.copy(), "trail": st.trail, "chain": E.chain(st)})
    st.emit(e)
    return done(E, st, f, ins)
def h_extent(E, st, f, ins, fn, args):
    """the object at the pointer has that many bytes: every access to it is an obligation"""
    o, off = E.resolve(args[0])
    if E.extents is not None: E.extents[o.base] = E.simp(st, args[1])
    return done(E, st, f, ins)
def h_reads(E, st, f, ins, fn, args):
    n = E.simp(st, args[1])
    if n.k == "c" and n.a == 0: return done(E, st, f, ins)
    o, off = E.resolve(args[0])
    if o is None: st.emit(Ev("null", "load", (args[0],), loc=E.loc(st)))
    else:
        if not E.os(st, o.base).alive: st.emit(Ev("dead", "load", (args[0],), loc=E.loc(st), chain=E.chain(st), x=o))
        off = E.simp(st, off)
        if off.k == "c" and n.k == "c" and o.size is not None and not 0 <= sgn(off.a, 64) <= o.size - n.a: st.emit(Ev("oob", "load", (args[0], n), loc=E.loc(st), chain=E.chain(st), x=o))
        E.reads(st, args[0], n)
    return done(E, st, f, ins)
HARNESS = [(r"^fw_extent$", h_extent), (r"^fw_reads$", h_reads), (r"^fw_order$", h_order), (r"^fw_view_require$", h_require), (r"^fw_prove$", h_prove), (r"^fw_assume$", h_assume), (r"^fw_mark$", h_mark)]
