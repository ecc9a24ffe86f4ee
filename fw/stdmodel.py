"""Contracts of the standard-library operations that the analysis keeps as events.

Every contract states what the operation reads and writes at the granularity the
rules need: containers are {begin,end,capacity} words plus an abstract buffer
object, strings {data,length}, hash tables {first node,size} plus node pointers.
"""
import re
from .terms import *
from .facts import GLOBAL_IV
from .engine import Ev, OS, Obj, PMAX, short, param_types, Unsupported

P64 = lambda v: C(64, v)

def done(E, st, f, ins, ret=None):
    if ret is not None and "d" in ins: f.regs[ins["d"]] = ret
    f.ip += 1
    return None

def event(E, st, kind, fn, args, x=None, ret=None):
    e = Ev(kind, fn.sim, tuple(args), ret, dict(st.mem), E.loc(st), E.chain(st), x=x, facts=len(st.facts.lits))
    st.emit(e)
    return e

def snap_obj(E, st, addr, n):
    """content of n bytes at addr as [(off, size, term)] in 8 byte words where possible"""
    out = []
    pos = 0
    try: o, off = E.resolve(addr)
    except Exception: return None
    if o is None: return None
    s = E.os(st, o.base)
    if off.k == "c":
        b = sgn(off.a, 64)
        cuts = sorted(a - b for a, (m, _) in s.cells.items() if b <= a < b + n)
        sizes = {a - b: m for a, (m, _) in s.cells.items() if b <= a < b + n}
        while pos < n:
            m = sizes.get(pos)
            if m is None:
                nxt = [c for c in cuts if c > pos]
                lim = (nxt[0] if nxt else n) - pos
                m = 8 if lim >= 8 and pos % 8 == 0 else 4 if lim >= 4 and pos % 4 == 0 else 2 if lim >= 2 and pos % 2 == 0 else 1
            out.append((pos, m, E.load(st, addc(addr, pos), m))); pos += m
    else:
        while pos < n:
            m = 8 if n - pos >= 8 else 4 if n - pos >= 4 else 2 if n - pos >= 2 else 1
            out.append((pos, m, E.load(st, addc(addr, pos), m))); pos += m
    return out

def field(snap, off, n):
    """term of n bytes at off of a snapshot"""
    ts = []; pos = off
    while pos < off + n:
        for a, m, t in snap:
            if a <= pos < a + m:
                e = min(a + m, off + n)
                ts.append(slc(t, 8 * (pos - a), 8 * (e - pos))); pos = e
                break
        else: return None
    return cat(ts)

def deref(fn, i):
    return fn.args[i].get("deref") or fn.args[i].get("sret") or 0

# ------------------------------------------------------------------ vectors
def vbuf(E, st, this, tag="vbuf"):
    o = E.new_obj(st, tag, "buf", None)
    return o.base
def sized(E, b, n):
    """the buffer holds n bytes (None: no longer known)"""
    if E.extents is not None:
        if n is None: E.extents.pop(b, None)
        else: E.extents[b] = n

def vset(E, st, this, b, e, c=None):
    E.store(st, this, b, 8); E.store(st, addc(this, 8), e, 8); E.store(st, addc(this, 16), e if c is None else c, 8)

def vget(E, st, this):
    return E.load(st, this, 8, True), E.load(st, addc(this, 8), 8)

SCAL = {"unsigned char": 1, "char": 1, "signed char": 1, "bool": 1, "unsigned short": 2, "short": 2, "int": 4, "unsigned int": 4,
        "long": 8, "unsigned long": 8, "unsigned long long": 8, "long long": 8}
def elem_size(E, fn):
    if "emplace_back" in fn.sim and fn.rderef: return fn.rderef
    m = re.search(r"std::vector<(.*)$", fn.dem)
    if m:
        s = m[1]; d = 0; cur = ""
        for ch in s:
            if ch == "<": d += 1
            elif ch == ">": d -= 1
            if (ch == "," and d == 0) or d < 0: break
            cur += ch
        cur = cur.strip()
        if cur in SCAL: return SCAL[cur]
        if cur.endswith("*"): return 8
        k = E.sizes.get(cur)
        if k: return k
    return 0

def v_ctor(E, st, f, ins, fn, args):
    this = args[0]
    ps = param_types(fn.sim) or []
    p0 = ps[0] if ps else ""
    if not ps or p0.startswith("std::allocator"):
        b = vbuf(E, st, this); vset(E, st, this, b, b)
        return done(E, st, f, ins)
    if p0.startswith("std::vector"):
        src = args[1]
        b, e = vget(E, st, src)
        if p0.endswith("&&"):
            vset(E, st, this, b, e, E.load(st, addc(src, 16), 8, True))
            nb = vbuf(E, st, src, "moved"); vset(E, st, src, nb, nb)
            event(E, st, "vmove", fn, args)
        else:
            nb = vbuf(E, st, this)
            try:
                o, off = E.resolve(b)
                if o and off.k == "c" and off.a == 0:
                    s = E.os(st, o.base)
                    t = s.clone(); t.alive = True
                    t.lazy = ((-(1 << 62), 1 << 62, o, s.ver, -(1 << 62)),) + s.lazy if True else s.lazy
                    t.ver = s.ver
                    st.mem[nb] = t
            except Exception: pass
            d = sub(e, b)
            sized(E, nb, d)
            vset(E, st, this, nb, add(nb, d))
            event(E, st, "vcopy", fn, args, x={"from": b, "to": nb, "len": d})
        return done(E, st, f, ins)
    if p0.startswith("std::initializer_list"):
        p, n = args[1], args[2]
        es = elem_size(E, fn)
        o, off = E.resolve(p)
        n = E.simp(st, n)
        if not es and o and off.k == "c" and off.a == 0 and o.size and n.k == "c" and n.a: es = o.size // n.a
        if not es or n.k != "c": return NotImplemented
        nb = vbuf(E, st, this)
        E.copy_mem(st, nb, p, es * n.a)
        sized(E, nb, P64(es * n.a))
        vset(E, st, this, nb, addc(nb, es * n.a))
        event(E, st, "vinit", fn, args, x={"buf": nb, "n": n.a, "es": es})
        return done(E, st, f, ins)
    if len(ps) >= 2 and ps[0] == ps[1] and "*" in p0 or len(ps) >= 2 and ps[0] == ps[1] and "iterator" in p0:
        first, last = args[1], args[2]
        nb = vbuf(E, st, this); n = sub(last, first)
        ev = event(E, st, "vrange", fn, args, x={"buf": nb, "first": first, "len": n, "vec": this})
        E.reads(st, first, n)
        link(E, st, nb, first, n); sized(E, nb, n)
        vset(E, st, this, nb, add(nb, n))
        return done(E, st, f, ins)
    if p0 in ("unsigned long", "unsigned long const"):
        es = elem_size(E, fn)
        nb = vbuf(E, st, this)
        if es:
            fill = C(8, 0)
            if len(ps) >= 2 and not ps[1].startswith("std::allocator"):
                v = E.load(st, args[2], es)
                fill = v if es == 1 else None
            st.mem[nb] = OS(fill=fill)
            e = add(nb, mulc(args[1], es)); sized(E, nb, mulc(args[1], es))
        else: e = add(nb, E.fresh(64, "vlen"))
        vset(E, st, this, nb, e)
        event(E, st, "vsized", fn, args, x={"buf": nb, "n": args[1], "es": es})
        return done(E, st, f, ins)
    return NotImplemented

def link(E, st, dst, src, n=None):
    """content of the fresh object dst mirrors memory at src (n bytes of it)"""
    try: o, off = E.resolve(src)
    except Exception: return
    if o is None: return
    s = E.os(st, o.base)
    off = E.simp(st, off)
    syms = s.syms
    if syms and n is not None:
        # what is stored behind the mirrored bytes does not matter
        end = add(off, n)
        if all(st.facts.val(ule(end, so)) is True or st.facts.val(ule(addc(so, sn), off)) is True for so, sn, _ in syms): syms = ()
    cut = bool(s.syms) and not syms
    if off.k == "c" and not syms:
        k = sgn(off.a, 64)
        cells = {a - k: v for a, v in s.cells.items() if a >= k}
        lazy = tuple((lo - k, hi - k, so, sv, so_off) for lo, hi, so, sv, so_off in s.lazy)
        st.mem[dst] = OS(cells, 0, True, (), ((-(1 << 62), 1 << 62, o, s.ver, k - (1 << 62)),) + lazy, s.fill)
    elif off.k != "c":
        v = ("link", o.name, s.ver, off.uid)
        st.mem[dst] = OS(ver=v)
        if not (s.cells or s.syms or s.lazy or s.fill is not None): E.links[(E.objs[dst].name, v)] = (o, s.ver, off)
    return cut

def v_grow(E, st, this, n):
    """n more bytes: when they may not fit, the content moves to new storage and whatever points into the old one dangles.
    Returns the old storage, which the caller gives back"""
    if any(l.mode == "gen" for fr in st.frames for l in fr.loops): return None
    b, e = vget(E, st, this)
    o = E.objs.get(b)
    if o is None or o.kind != "buf": return None
    size, cap = E.simp(st, sub(e, b)), E.simp(st, sub(E.load(st, addc(this, 16), 8, True), b))
    if size.k != "c" or size.a == 0 or size.a >= 1 << 16: return None
    if n is None or n.k != "c": return None
    if cap.k == "c" and size.a + n.a <= cap.a or st.facts.val(ule(C(64, size.a + n.a), cap)) is True: return None
    nb = vbuf(E, st, this); E.copy_mem(st, nb, b, size.a)
    if E.extents is not None and b in E.extents: sized(E, nb, None)
    vset(E, st, this, nb, addc(nb, size.a), addc(nb, size.a))
    return b
def give_back(E, st, b):
    s = E.os(st, b)
    st.mem[b] = OS(s.cells, s.ver, False, s.syms, s.lazy, s.fill)
def x_grow(E, st, f, ins, fn, args):
    o, off = E.resolve(vget(E, st, args[0])[0])
    if o is not None: sized(E, o.base, None)
    return done(E, st, f, ins, v_grow(E, st, args[0], E.simp(st, args[1])) or C(64, 0))

def v_push(E, st, f, ins, fn, args):
    this = args[0]
    es = elem_size(E, fn)
    if not es and "push_back" in fn.sim: es = deref(fn, 1)
    old = v_grow(E, st, this, P64(es)) if es else None
    b, e = vget(E, st, this)
    vals = []
    for i, a in enumerate(args[1:], 1):
        d = deref(fn, i)
        if d and isinstance(a, T): vals.append((a, snap_obj(E, st, a, d)))
        else: vals.append((a, None))
    ev = event(E, st, "vpush", fn, args, x={"vec": this, "buf": b, "end": e, "es": es, "vals": vals})
    if not es: es = 8; ev.x["es"] = None
    E.store(st, addc(this, 8), addc(e, es), 8)
    # element content
    ob, ofb = E.resolve(b); sized(E, ob.base, None) if ob else None; oe, ofe = E.resolve(e)
    d = E.simp(st, sub(ofe, ofb)) if ob is oe else None
    conc = d is not None and d.k == "c" and sgn(d.a, 64) < 1 << 16
    ok = len(args) == 2 and vals[0][1] is not None and deref(fn, 1) == es
    if conc and ofb.k == "c":
        if ok: E.copy_mem(st, e, args[1], es)
        else:
            # piecewise constructed: known two-word views keep their content
            w = E.construct(st, fn, args, vals, es) if getattr(E, "construct", None) else None
            if w is None: E.havoc(st, ob, "elem", sgn(d.a, 64), es)
            else:
                for off, n, t in w: E.store(st, addc(e, off), t, n)
    else:
        E.uniq += 1
        s = E.os(st, ob.base)
        st.mem[ob.base] = OS({}, f"grown{E.uniq}", s.alive)
    if old is not None: give_back(E, st, old)
    return done(E, st, f, ins, e if "d" in ins else None)

def v_reserve(E, st, f, ins, fn, args):
    event(E, st, "vreserve", fn, args)
    es = elem_size(E, fn)
    if "reserve" in fn.sim:
        b, e = vget(E, st, args[0])
        if not es: E.store(st, addc(args[0], 16), addc(b, 1 << 40), 8)      # elements of unknown size: it suffices
        else:
            n = E.simp(st, mulc(args[1], es)); size, cap = E.simp(st, sub(e, b)), E.simp(st, sub(E.load(st, addc(args[0], 16), 8, True), b))
            if st.facts.val(ule(n, cap)) is not True:
                old = v_grow(E, st, args[0], E.simp(st, sub(n, size)))
                if old is not None: give_back(E, st, old)
                E.store(st, addc(args[0], 16), add(vget(E, st, args[0])[0], n), 8)
    return done(E, st, f, ins)

def v_assign(E, st, f, ins, fn, args):
    ps = param_types(fn.sim)
    this, src = args[0], args[1]
    if not ps[0].startswith("std::vector"): return NotImplemented
    b, e = vget(E, st, src)
    if ps[0].endswith("&&"):
        c = E.load(st, addc(src, 16), 8, True)
        event(E, st, "vmove", fn, args)
        nb = vbuf(E, st, src, "moved"); vset(E, st, src, nb, nb)
        vset(E, st, this, b, e, c)
    else:
        nb = vbuf(E, st, this); d = sub(e, b)
        event(E, st, "vcopy", fn, args, x={"from": b, "to": nb, "len": d})
        link(E, st, nb, b, d); sized(E, nb, d)
        vset(E, st, this, nb, add(nb, d))
    return done(E, st, f, ins, this)

def v_clear(E, st, f, ins, fn, args):
    event(E, st, "vclear", fn, args)
    b, e = vget(E, st, args[0]); E.store(st, addc(args[0], 8), b, 8)
    return done(E, st, f, ins)

def v_pop(E, st, f, ins, fn, args):
    event(E, st, "vpop", fn, args)
    es = elem_size(E, fn); b, e = vget(E, st, args[0])
    E.store(st, addc(args[0], 8), addc(e, -es) if es else E.fresh(64, "vend", True), 8)
    return done(E, st, f, ins)

def nop(E, st, f, ins, fn, args): return done(E, st, f, ins)
def nop_this(E, st, f, ins, fn, args): return done(E, st, f, ins, args[0])

def block(E, st, nb, at, p, n):
    """append n bytes of p to the fresh buffer nb at offset `at` (a term behind a block of unknown length; None once unknown): the new offset"""
    n = E.simp(st, n)
    if n.k != "c": E.reads(st, p, n)
    if at is None: return None
    if n.k == "c":
        n = sgn(n.a, 64)
        if n < 0 or n > 1 << 16 or not isinstance(at, int) and n > 32: return None
        if n: E.copy_mem(st, add(nb, P64(at) if isinstance(at, int) else at), p, n)
        return at + n if isinstance(at, int) else E.simp(st, addc(at, n))
    if not isinstance(at, int): return None
    if at == 0:
        link(E, st, nb, p, n); return n
    try:
        o, off = E.resolve(p); ss = E.os(st, o.base)
        # what is stored behind the block does not matter
        end = add(off, n)
        behind = all(st.facts.val(ule(end, so)) is True or st.facts.val(ule(addc(so, sn), off)) is True for so, sn, _ in ss.syms) and \
            all(st.facts.val(ule(end, P64(a))) is True or st.facts.val(ule(P64(a + m), off)) is True for a, (m, _) in ss.cells.items())
        if off.k != "c" or not behind or ss.fill is not None: return None
        k = sgn(off.a, 64); src = (o, ss.ver, k)
        if ss.lazy:
            lo, hi, so, sver, soff = ss.lazy[-1]
            if not (lo <= -(1 << 61) and hi >= 1 << 61): return None
            src = (so, sver, soff + k - lo)
        d2 = E.os(st, nb).clone()
        d2.lazy = d2.lazy + ((at, at + (1 << 40), *src),)
        st.mem[nb] = d2
        return E.simp(st, addc(n, at))
    except (Unsupported, KeyError, AttributeError): return None

def v_rebuild(E, st, this, parts):
    """the vector := the parts (pointer or (value, size), bytes), one after the other"""
    nb = vbuf(E, st, this); at = 0; total = P64(0)
    for p, n in parts:
        if isinstance(p, tuple):
            for v in p[0]:
                E.store(st, addc(nb, at), v, p[1]); at += p[1]
        else: at = block(E, st, nb, at, p, n)
        total = add(total, n)
    vset(E, st, this, nb, add(nb, E.simp(st, total))); sized(E, nb, E.simp(st, total))
    return nb

def v_insert(E, st, f, ins, fn, args):
    """insert, emplace, assign, resize, erase: exact where the element size is known and the vector before is of known length"""
    this = args[0]
    b, e = vget(E, st, this)
    ps = param_types(fn.sim) or []
    event(E, st, "vinsert", fn, args, x={"vec": this, "buf": b, "end": e})
    if E.extents is not None:
        try: sized(E, E.resolve(b)[0].base, None)
        except (Unsupported, AttributeError): pass
    op = fn.sim.split("(")[0].split("::")[-1]
    es = elem_size(E, fn)
    r = None
    try: r = v_change(E, st, fn, ps, args, op, es, b, e)
    except (Unsupported, KeyError): r = None
    if r is None:
        E.store(st, addc(this, 8), E.fresh(64, "vend", True), 8)
        try:
            ob, _ = E.resolve(b); E.havoc(st, ob, "ins")
        except Exception: pass
        r = E.fresh(64, "vit", True)
    return done(E, st, f, ins, r if "d" in ins else None)

def v_change(E, st, fn, ps, args, op, es, b, e):
    this = args[0]
    size = E.simp(st, sub(e, b))
    a = list(args[1:])
    def itval(i, is_ref):           # an iterator passed by reference or by value
        return E.load(st, a[i], 8, True) if is_ref else a[i]
    def single(i):                  # one element passed by reference
        return a[i], P64(es)
    def copies(i, n):
        if n.k != "c" or n.a > 4096 or not es: return None
        out = []; pos = 0
        while pos < es:
            m = 8 if es - pos >= 8 else 4 if es - pos >= 4 else 2 if es - pos >= 2 else 1
            out.append((pos, m, E.load(st, addc(a[i], pos), m) if i is not None else C(8 * m, 0))); pos += m
        if es <= 8 and len(out) == 1: return ([out[0][2]] * n.a, es), P64(es * n.a)
        if es % 8 == 0: return ([t for _ in range(n.a) for _, _, t in out], 8), P64(es * n.a)
        return None
    pos = None; new = None
    if op in ("insert", "emplace"):
        pos = a[0]
        k = E.simp(st, sub(pos, b))
        rest = ps[1:]
        if op == "emplace":
            if len(rest) != 1 or deref(fn, 2) != es: return None
            new = single(1)
        elif rest and "initializer_list" in rest[0]: new = (a[1], mulc(a[2], es)) if es else None
        elif len(rest) == 2 and rest[0] == rest[1] and ("*" in rest[0] or "iterator" in rest[0]): new = (a[1], sub(a[2], a[1]))
        elif len(rest) == 2 and rest[0].startswith("unsigned long"): new = copies(2, E.simp(st, a[1]))
        elif len(rest) == 1 and es: new = single(1)
        if new is None: return None
        if k is size or (k.k == "c" and size.k == "c" and k.a == size.a):
            if size.k != "c":
                if new[1].k != "c": return None
                # appended behind content of unknown length
                for_ = new[0]
                if isinstance(for_, tuple):
                    for i, v in enumerate(for_[0]): E.store(st, addc(e, i * for_[1]), v, for_[1])
                else: E.copy_mem(st, e, for_, new[1].a)
                E.store(st, addc(this, 8), add(e, new[1]), 8)
                return e
            parts = [(b, size), new]
        else:
            if k.k != "c" or size.k != "c": return None
            parts = [(b, k), new, (pos, sub(size, k))]
        nb = v_rebuild(E, st, this, parts)
        return add(nb, k)
    if op == "assign":
        if ps and "initializer_list" in ps[0]: new = (a[0], mulc(a[1], es)) if es else None
        elif len(ps) == 2 and ps[0] == ps[1] and ("*" in ps[0] or "iterator" in ps[0]): new = (a[0], sub(a[1], a[0]))
        elif len(ps) == 2 and ps[0].startswith("unsigned long"): new = copies(1, E.simp(st, a[0]))
        if new is None: return None
        v_rebuild(E, st, this, [new])
        return P64(0)
    if op == "resize":
        n = E.simp(st, a[0])
        if not es or size.k != "c" or n.k != "c": return None
        n = n.a * es
        if n <= size.a:
            E.store(st, addc(this, 8), addc(b, n), 8); return P64(0)
        new = copies(1 if len(ps) > 1 else None, P64((n - size.a) // es))
        if new is None: return None
        v_rebuild(E, st, this, [(b, size), new])
        return P64(0)
    if op == "erase":
        if not es: return None
        first = a[0]; last = a[1] if len(ps) == 2 else addc(first, es)
        k, m = E.simp(st, sub(first, b)), E.simp(st, sub(last, b))
        if m is size:               # a tail
            E.store(st, addc(this, 8), first, 8); return first
        if k.k != "c" or m.k != "c" or size.k != "c": return None
        nb = v_rebuild(E, st, this, [(b, k), (last, sub(size, m))])
        return add(nb, k)
    return None

# ------------------------------------------------------------------ strings
def s_set(E, st, this, data, n):
    E.store(st, this, data, 8); E.store(st, addc(this, 8), n, 8)
    if E.extents is not None and data in E.objs and E.objs[data].kind == "buf": sized(E, data, addc(E.simp(st, n), 1))
def s_get(E, st, this): return E.load(st, this, 8, True), E.load(st, addc(this, 8), 8)

def s_nul(E, st, b, n):
    n = E.simp(st, n)
    if n.k == "c" and n.a <= 1024: E.store(st, addc(b, n.a), C(8, 0), 1)

def s_ctor(E, st, f, ins, fn, args):
    this = args[0]
    ps = [p for p in (param_types(fn.sim) or [])]
    p0 = ps[0] if ps else ""
    if not ps or p0.startswith("std::allocator"):
        b = vbuf(E, st, this, "str"); s_set(E, st, this, b, P64(0)); E.store(st, b, C(8, 0), 1)
        return done(E, st, f, ins)
    if "basic_string" in p0 and "view" not in p0:
        src = args[1]
        d, n = s_get(E, st, src)
        if p0.endswith("&&"):
            s_set(E, st, this, d, n)
            b = vbuf(E, st, src, "str"); s_set(E, st, src, b, P64(0))
        else:
            E.reads(st, d, n)
            b = vbuf(E, st, this, "str"); cut = link(E, st, b, d, n); s_set(E, st, this, b, n)
            if cut: s_nul(E, st, b, n)
            event(E, st, "scopy", fn, args, x={"from": d, "to": b, "len": n})
        return done(E, st, f, ins)
    if len(ps) >= 2 and ps[0] == ps[1] and "*" in p0:
        first, last = args[1], args[2]
        b = vbuf(E, st, this, "str"); n = sub(last, first)
        event(E, st, "srange", fn, args, x={"buf": b, "first": first, "len": n, "str": this})
        E.reads(st, first, n)
        link(E, st, b, first, n); s_set(E, st, this, b, n); s_nul(E, st, b, n)
        return done(E, st, f, ins)
    if p0 == "char const*" and len(ps) >= 2 and ps[1] == "unsigned long":
        b = vbuf(E, st, this, "str")
        event(E, st, "srange", fn, args, x={"buf": b, "first": args[1], "len": args[2], "str": this})
        E.reads(st, args[1], args[2])
        link(E, st, b, args[1], args[2]); s_set(E, st, this, b, args[2]); s_nul(E, st, b, args[2])
        return done(E, st, f, ins)
    if p0 == "char const*":
        b = vbuf(E, st, this, "str")
        o, off = E.resolve(args[1])
        lit = cstring(E, o, off)
        n = cstr_len(E, st, args[1])
        if n is None:
            n = E.fresh(64, "strlen")
            GLOBAL_IV[n] = (0, 1 << 40)
        event(E, st, "scstr", fn, args, x={"buf": b, "lit": lit, "str": this})
        link(E, st, b, args[1], addc(n, 1)); s_set(E, st, this, b, n)
        return done(E, st, f, ins)
    if "basic_string_view" in p0:
        # by reference: {len, data}
        a = args[1]
        try: n, d = E.load(st, a, 8), E.load(st, addc(a, 8), 8, True)
        except Exception: return NotImplemented
        b = vbuf(E, st, this, "str")
        event(E, st, "srange", fn, args, x={"buf": b, "first": d, "len": n, "str": this})
        E.reads(st, d, n)
        link(E, st, b, d, n); s_set(E, st, this, b, n); s_nul(E, st, b, n)
        return done(E, st, f, ins)
    return NotImplemented

def cstring(E, o, off):
    if o is None or o.kind != "global" or off.k != "c" or "init" not in o.g or not o.g["const"]: return None
    raw = bytes.fromhex(o.g["init"])[off.a:]
    z = raw.find(b"\0")
    return raw[:z] if z >= 0 else None

def s_gone(E, st, this):
    """the text of a string is given up: where the elements of containers are real objects, each text has one owner"""
    if not getattr(E, "dying", False): return
    try: d = E.load(st, this, 8, True)
    except Unsupported: return
    o = E.objs.get(d)
    if o is not None and o.kind == "buf" and o.base is d and o.base in st.mem: give_back(E, st, d)
def s_dtor(E, st, f, ins, fn, args):
    s_gone(E, st, args[0]); return done(E, st, f, ins)
def s_assign(E, st, f, ins, fn, args):
    ps = param_types(fn.sim); this, src = args[0], args[1]
    if "basic_string" in ps[0] and "view" not in ps[0]:
        d, n = s_get(E, st, src)
        if ps[0].endswith("&&"):
            if E.load(st, this, 8, True) is not d: s_gone(E, st, this)
            s_set(E, st, this, d, n); b = vbuf(E, st, src, "str"); s_set(E, st, src, b, P64(0))
        elif this is not src:
            E.reads(st, d, n)
            b = vbuf(E, st, this, "str"); cut = link(E, st, b, d, n); s_gone(E, st, this); s_set(E, st, this, b, n)
            if cut: s_nul(E, st, b, n)
        return done(E, st, f, ins, this)
    event(E, st, "sassign", fn, args)
    p = s_pieces(E, st, fn, ps, args[1:])
    if not (p and s_build(E, st, this, [p])):
        b = vbuf(E, st, this, "str"); s_set(E, st, this, b, E.fresh(64, "slen"))
    return done(E, st, f, ins, this)

def s_pieces(E, st, fn, ps, args):
    """the text an argument list denotes, as (bytes or pointer, length), or None"""
    p0 = ps[0] if ps else ""
    if "basic_string_view" in p0:
        if p0.endswith("&"): return E.load(st, addc(args[0], 8), 8, True), E.load(st, args[0], 8)
        return args[1], args[0]
    if "basic_string" in p0: return s_get(E, st, args[0])
    if p0 in ("char const*", "const char*") and not (len(ps) == 2 and ps[1] == p0):
        if len(ps) > 1: return (args[0], args[1]) if ps[1].startswith("unsigned long") else None
        n = cstr_len(E, st, args[0])
        return None if n is None else (args[0], n)
    if len(ps) == 2 and ps[0] == ps[1] and ("*" in p0 or "iterator" in p0): return args[0], sub(args[1], args[0])
    if p0 == "char" and len(ps) == 1: return [slc(args[0], 0, 8)], P64(1)
    if p0.startswith("unsigned long") and len(ps) == 2 and ps[1] == "char":
        n = E.simp(st, args[0])
        return ([slc(args[1], 0, 8)] * n.a, n) if n.k == "c" and n.a <= 256 else None
    return None
def s_bytes(E, st, d, n):
    return d if isinstance(d, list) else [E.load(st, addc(d, i), 1) for i in range(n)]
def s_build(E, st, this, parts):
    """this := the parts, one after the other; a part of unknown length may only be the last"""
    b = vbuf(E, st, this, "str"); at = 0; total = P64(0)
    for i, (d, n) in enumerate(parts):
        n = E.simp(st, n)
        if n.k != "c" or n.a > 1024:
            if i != len(parts) - 1: return False
            total = add(total, n)
            if n.k == "s": GLOBAL_IV.setdefault(n, (0, 1 << 40))
            if not isinstance(d, list): block(E, st, b, at, d, n)
            s_set(E, st, this, b, total); return True
        for k, x in enumerate(s_bytes(E, st, d, n.a)): E.store(st, addc(b, at + k), x, 1)
        at += n.a; total = P64(at)
    E.store(st, addc(b, at), C(8, 0), 1)
    s_set(E, st, this, b, total)
    return True
def s_mut(E, st, f, ins, fn, args):
    """appends and other mutators; where lengths are not known, new content is not either"""
    this = args[0]; ps = param_types(fn.sim) or []
    event(E, st, "smut", fn, args)
    before = E.load(st, this, 8, True) if getattr(E, "dying", False) else None
    opn = re.match(r"std::__cxx11::basic_string::(\w+\+?=?)", fn.sim)[1]
    ok = False
    if opn in ("append", "operator+=", "push_back", "assign"):
        p = s_pieces(E, st, fn, ps, args[1:])
        if p: ok = s_build(E, st, this, ([s_get(E, st, this)] if opn != "assign" else []) + [p])
    elif opn == "clear": ok = s_build(E, st, this, [])
    elif opn == "pop_back":
        d, n = s_get(E, st, this); n = E.simp(st, n)
        if n.k == "c" and n.a: ok = s_build(E, st, this, [(d, P64(n.a - 1))])
    elif opn == "resize":
        d, n = s_get(E, st, this); n, k = E.simp(st, n), E.simp(st, args[1])
        if n.k == "c" and k.k == "c" and k.a <= 1024:
            c = slc(args[2], 0, 8) if len(ps) > 1 else C(8, 0)
            ok = s_build(E, st, this, [(d, P64(min(n.a, k.a))), ([c] * max(0, k.a - n.a), P64(max(0, k.a - n.a)))])
    if not ok:
        b = vbuf(E, st, this, "str"); s_set(E, st, this, b, E.fresh(64, "slen"))
    now, n = s_get(E, st, this); n = E.simp(st, n)
    if before is not now and getattr(E, "dying", False) and (n.k != "c" or n.a > 15):
        # longer than what a string holds in itself: pointers to the text of before dangle
        o = E.objs.get(before)
        if o is not None and o.kind == "buf" and o.base is before and before in st.mem: give_back(E, st, before)
    return done(E, st, f, ins, this)

def s_plus(E, st, f, ins, fn, args):
    sret = [i for i, a in enumerate(fn.args) if "sret" in a]
    ps = param_types(fn.sim) or []
    if sret == [0] and len(ps) == 2 and len(args) == 3:
        l, r = s_pieces(E, st, fn, ps[:1], args[1:2]), s_pieces(E, st, fn, ps[1:], args[2:])
        if l and r and s_build(E, st, args[0], [l, r]): return done(E, st, f, ins)
    return s_result(E, st, f, ins, fn, args)

def s_result(E, st, f, ins, fn, args):
    """string returned by value"""
    sret = [i for i, a in enumerate(fn.args) if "sret" in a]
    if not sret: return NotImplemented
    this = args[sret[0]]
    b = vbuf(E, st, this, "str"); n = E.fresh(64, "slen")
    GLOBAL_IV[n] = (0, 1 << 40)
    s_set(E, st, this, b, n)
    event(E, st, "sresult", fn, args, x={"buf": b, "len": n})
    return done(E, st, f, ins)

def s_sub(E, st, f, ins, fn, args):
    """substr of a text: exact for a known start"""
    sret = [i for i, a in enumerate(fn.args) if "sret" in a]
    if sret == [0] and len(args) == 4:
        d, n = s_get(E, st, args[1]); n, p, k = E.simp(st, n), E.simp(st, args[2]), E.simp(st, args[3])
        if p.k == "c" and n.k == "c" and p.a <= n.a and k.k == "c" and s_build(E, st, args[0], [(addc(d, p.a), P64(min(k.a, n.a - p.a)))]): return done(E, st, f, ins)
    return s_result(E, st, f, ins, fn, args)

# ------------------------------------------------------------------ hash tables
def m_key(E, st, fn, args, i=1):
    d = deref(fn, i)
    return snap_obj(E, st, args[i], d) if d else None

def keyid(E, st, k):
    out = []
    for o, n, t in k or ():
        out.append((o, n, t.uid))
    return tuple(out)

def m_version(E, st, this):
    return E.load(st, addc(this, 24), 8)

def m_find(E, st, f, ins, fn, args):
    this = args[0]
    k = m_key(E, st, fn, args)
    v = m_version(E, st, this)
    memo = E.__dict__.setdefault("findmemo", {})
    ck = (this.uid, v.uid, keyid(E, st, k), deref(fn, 1) <= 8)
    p = memo.get(ck)
    if p is None or deref(fn, 1) > 8 and not k:
        p = E.fresh(64, "node", True)
        GLOBAL_IV[p] = (0, PMAX)
        memo[ck] = p
    event(E, st, "find", fn, args, x={"map": this, "key": k, "ver": v}, ret=p)
    # table invariant: a node can only be found in a non-empty table
    op = fn.sim.split("(")[0].split("::")[-1]
    if op in ("count", "contains"):
        r = lnot(eq(p, P64(0)))
        w = E.bits(ins["t"])
        return done(E, st, f, ins, zext(r, w) if w > 1 else r)
    if op in ("at", "operator[]"):
        st.facts.assume(eq(p, P64(0)), False)
        return done(E, st, f, ins, addc(p, 8))
    return done(E, st, f, ins, p)

def m_emplace(E, st, f, ins, fn, args):
    this = args[0]
    sret = [i for i, a in enumerate(fn.args) if "sret" in a]
    if sret: this = args[1]
    base = 1 + len(sret)
    vals = []
    for i in range(base, len(args)):
        d = deref(fn, i)
        vals.append((args[i], snap_obj(E, st, args[i], d) if d else None))
    p = E.fresh(64, "newnode", True); GLOBAL_IV[p] = (4096, PMAX)
    ok = E.fresh(8, "inserted"); ok = zext(slc(ok, 0, 1), 8)
    old = m_version(E, st, this)
    event(E, st, "emplace", fn, args, x={"map": this, "vals": vals, "ver": old}, ret=p)
    n = E.fresh(64, "mapsize"); GLOBAL_IV[n] = (1, 1 << 40)
    E.store(st, addc(this, 24), n, 8)
    b = E.fresh(64, "firstnode", True); E.store(st, addc(this, 16), b, 8)
    if sret:
        E.store(st, args[0], p, 8); E.store(st, addc(args[0], 8), ok, 1); return done(E, st, f, ins)
    ty = ins.get("t")
    if isinstance(ty, list): return done(E, st, f, ins, (p, slc(ok, 0, E.bits(ty[1][1]))))
    return done(E, st, f, ins, p if "d" in ins else None)

def m_erase(E, st, f, ins, fn, args):
    this = args[0]
    d = deref(fn, 1)
    k = snap_obj(E, st, args[1], d) if d else None
    event(E, st, "erase", fn, args, x={"map": this, "key": k, "arg": args[1], "ver": m_version(E, st, this)})
    n = E.fresh(64, "mapsize"); GLOBAL_IV[n] = (0, 1 << 40)
    E.store(st, addc(this, 24), n, 8)
    b = E.fresh(64, "firstnode", True); GLOBAL_IV[b] = (0, PMAX); E.store(st, addc(this, 16), b, 8)
    return done(E, st, f, ins, E.fresh_ty(ins["t"], "erased") if "d" in ins else None)

def m_move(E, st, f, ins, fn, args):
    this, src = args[0], args[1]
    ps = param_types(fn.sim)
    if "unordered_map" not in ps[0] and "_Hashtable" not in ps[0]:
        event(E, st, "mctor", fn, args)
        E.store(st, addc(this, 24), P64(0), 8); E.store(st, addc(this, 16), P64(0), 8)
        return done(E, st, f, ins)
    event(E, st, "mmove" if ps[0].endswith("&&") else "mcopy", fn, args, x={"to": this, "from": src, "ver": m_version(E, st, src)})
    E.copy_mem(st, this, src, 56)
    if ps[0].endswith("&&"):
        E.store(st, addc(src, 24), P64(0), 8); E.store(st, addc(src, 16), P64(0), 8)
    return done(E, st, f, ins, this if "d" in ins else None)

# ------------------------------------------------------------------ variants
def var_copy(E, st, f, ins, fn, args):
    n = fn.args[0].get("deref") or fn.args[1].get("deref")
    if not n: return NotImplemented
    event(E, st, "varcopy", fn, args, x={"n": n})
    E.copy_mem(st, args[0], args[1], n)
    return done(E, st, f, ins, args[0] if "d" in ins else None)

# ------------------------------------------------------------------ functions
def fn_call(E, st, f, ins, fn, args):
    """std::function call: result unknown, arguments recorded"""
    snaps = []
    for i, a in enumerate(args):
        d = deref(fn, i)
        snaps.append(snap_obj(E, st, a, d) if d and isinstance(a, T) and "sret" not in fn.args[i] else None)
    sret = [i for i, a in enumerate(fn.args) if "sret" in a]
    ret = None
    x = {"snaps": snaps}
    ev = event(E, st, "fcall", fn, args, x=x)
    for i in sret:
        o, k = E.resolve(args[i])
        x["ret"] = E.havoc(st, o, "fcall", sgn(k.a, 64), fn.args[i]["sret"])
        x["retaddr"] = args[i]
    if "d" in ins: ret = E.fresh_ty(ins["t"], "fcall"); ev.ret = ret
    return done(E, st, f, ins, ret)

def fn_copy(E, st, f, ins, fn, args):
    if len(args) > 1 and (param_types(fn.sim) or [""])[0].startswith("std::function"):
        E.copy_mem(st, args[0], args[1], 32)
        event(E, st, "fcopy", fn, args)
        return done(E, st, f, ins, args[0] if "d" in ins else None)
    return NotImplemented

# ------------------------------------------------------------------ C library
def x_new(E, st, f, ins, fn, args):
    n = E.simp(st, args[0])
    o = E.new_obj(st, "heap", "heap", n.a if n.k == "c" else None)
    event(E, st, "new", fn, args, ret=o.base)
    return done(E, st, f, ins, o.base)
def x_delete(E, st, f, ins, fn, args):
    event(E, st, "delete", fn, args)
    return x_release(E, st, f, ins, fn, args)
def x_release(E, st, f, ins, fn, args):
    """storage given back: any later use is a use after free"""
    p = E.simp(st, args[0])
    if p.k == "c": return done(E, st, f, ins)
    o = E.objs.get(p)
    if o is not None and o.kind in ("heap", "buf"):
        s = E.os(st, o.base)
        if not s.alive: st.emit(Ev("dead", "free", (p,), loc=E.loc(st), chain=E.chain(st), x=o))
        st.mem[o.base] = OS(s.cells, s.ver, False, s.syms, s.lazy, s.fill)
    return done(E, st, f, ins)
def x_storage(E, st, f, ins, fn, args):
    return done(E, st, f, ins, vbuf(E, st, None))
def x_filled(E, st, f, ins, fn, args):
    b = vbuf(E, st, None); st.mem[b] = OS(fill=slc(args[0], 0, 8))
    sized(E, b, None)
    return done(E, st, f, ins, b)
def x_mirror(E, st, f, ins, fn, args):
    b = vbuf(E, st, None); n = E.simp(st, args[1])
    if n.k == "c" and n.a <= 1 << 16:
        if n.a: E.copy_mem(st, b, args[0], n.a)
    else: E.reads(st, args[0], n); link(E, st, b, args[0], n)
    event(E, st, "mirror", fn, args, x={"buf": b, "from": args[0], "len": n})
    return done(E, st, f, ins, b)
def x_require(E, st, f, ins, fn, args):
    event(E, st, "require", fn, args, x={"facts": st.facts.copy()})
    return done(E, st, f, ins)
def x_pure(E, st, f, ins, fn, args):
    r = E.fresh_ty(ins["t"], short(fn.sim)) if "d" in ins else None
    event(E, st, "pure", fn, args, ret=r)
    return done(E, st, f, ins, r)
def x_cmp(E, st, f, ins, fn, args):
    """memcmp/bcmp of equal regions"""
    n = E.simp(st, args[2])
    if n.k == "c" and n.a == 0: return done(E, st, f, ins, C(32, 0))
    memo = E.__dict__.setdefault("cmpmemo", {})
    if n.k == "c" and n.a <= 64:        # short constant length: the exact conjunction of byte equalities
        try: q = band(*[eq(E.load(st, addc(args[0], i), 1), E.load(st, addc(args[1], i), 1)) for i in range(n.a)])
        except (Unsupported, KeyError): q = None
        if q is not None:
            event(E, st, "memcmp", fn, args, x={"n": n})
            v = st.facts.val(q)
            if v is True or v == 1: return done(E, st, f, ins, C(32, 0))
            if "bcmp" in fn.sim or "bcmp" in fn.name: return done(E, st, f, ins, zext(lnot(q), 32))
            if v is None:
                s2 = st.copy()
                if st.facts.assume(q, True): done(E, st, f, ins, C(32, 0))
                else: st = None
                if s2.facts.assume(q, False):
                    r = E.fresh(32, "cmp"); s2.facts.assume(eq(r, C(32, 0)), False); done(E, s2, s2.frames[-1], ins, r)
                else: s2 = None
                return [x for x in (st, s2) if x is not None]
    E.reads(st, args[0], n); E.reads(st, args[1], n)
    def content(p):
        try:
            o, off = E.resolve(p); s = E.os(st, o.base)
            if n.k == "c" and n.a <= 64 and off.k == "c": return ("v", cat([E.load(st, addc(p, i), 1) for i in range(n.a)]).uid)
            return ("r", o.name, s.ver, off.uid, tuple(sorted((a, m, t.uid) for a, (m, t) in s.cells.items())), tuple(map(str, s.lazy)), len(s.syms))
        except Exception: return ("?", p.uid, E.uniq)
    ck = (content(args[0]), content(args[1]), n.uid)
    r = memo.get(ck)
    if r is None:
        r = E.fresh(32, "cmp"); memo[ck] = r
    event(E, st, "memcmp", fn, args, x={"n": n}, ret=r)
    return done(E, st, f, ins, r)
def cstr_len(E, st, p):
    """length of the text at p where its terminator is known, or None"""
    try:
        o, off = E.resolve(p)
        lit = cstring(E, o, off)
        if lit is not None: return P64(len(lit))
        for i in range(300):
            b = E.load(st, addc(p, i), 1)
            if i == 0 and b.k == "s" and b.a in E.__dict__.get("texts", {}): return E.texts[b.a]
            z = st.facts.val(eq(b, C(8, 0)))
            if z is True: return P64(i)
            if z is None: return None
    except (Unsupported, KeyError): pass
    return None
def x_memchr(E, st, f, ins, fn, args):
    n = E.simp(st, args[2])
    if n.k != "c" or n.a > 512: return NotImplemented
    c = slc(args[1], 0, 8); out = []
    for i in range(n.a):
        q = eq(E.load(st, addc(args[0], i), 1), c)
        v = st.facts.val(q)
        if v is False: continue
        if v is True: done(E, st, f, ins, addc(args[0], i)); return out + [st] if out else None
        s2 = st.copy(); lc = E.loc(st)
        if s2.facts.assume(q, True): s2.trail = (s2.trail, (lc, q, True)); done(E, s2, s2.frames[-1], ins, addc(args[0], i)); out.append(s2)
        if not st.facts.assume(q, False): return out
    done(E, st, f, ins, P64(0))
    return out + [st] if out else None
def errno(E, st, v=None):
    b = S(64, "&errno", True); GLOBAL_IV[b] = (4096, PMAX)
    if v is not None: E.store(st, b, C(32, v), 4)
    return b
def x_errno(E, st, f, ins, fn, args): return done(E, st, f, ins, errno(E, st))
def same_app(E, st, name, xs, w, decided=True):
    """the name of an uninterpreted application; an application decided earlier on this path to equal arguments is the same one"""
    key = name + "(" + ",".join(map(str, xs)) + ")"
    apps = E.__dict__.setdefault("apps", {}).setdefault((name, len(xs)), {})
    if key not in apps:
        used = {t.a[1].a for t in st.facts.lits if t.k == "cmp" and t.a[1].k == "s"} if apps else ()
        for k, ys in apps.items():
            if (not decided or k in used) and all(x is y or st.facts.val(eq(x, y)) is True for x, y in zip(xs, ys)): return k
        apps[key] = xs
    return key
INET = {2: (4, 15), 10: (16, 45)}
PTON = {2: (7, 15), 10: (2, 45)}
def x_pton(E, st, f, ins, fn, args):
    """POSIX inet_pton: whether and to what a text converts is a function of the text"""
    af = E.simp(st, args[0])
    if af.k != "c": return NotImplemented
    if af.a not in INET:
        errno(E, st, 97); return done(E, st, f, ins, C(32, -1))
    n = cstr_len(E, st, args[1])
    if n is None or n.k != "c": return NotImplemented
    if not PTON[af.a][0] <= n.a <= PTON[af.a][1]:   # no address is written that short or that long
        event(E, st, "pton", fn, args); return done(E, st, f, ins, C(32, 0))
    key = same_app(E, st, f"pton{af.a}", [E.simp(st, E.load(st, addc(args[1], i), 1)) for i in range(n.a)], 32)
    rc = S(32, key); GLOBAL_IV[rc] = (0, 1); q = eq(rc, C(32, 1)); out = []; lc = E.loc(st)
    event(E, st, "pton", fn, args)
    for s, b in ((st.copy(), True), (st, False)):
        if not s.facts.assume(q, b): continue
        s.trail = (s.trail, (lc, q, b))
        if b:
            for i in range(INET[af.a][0]): E.store(s, addc(args[2], i), S(8, f"{key}[{i}]"), 1)
        done(E, s, s.frames[-1], ins, C(32, int(b))); out.append(s)
    return out
def x_guard(E, st, f, ins, fn, args):
    b = E.load(st, args[0], 1)
    return done(E, st, f, ins, zext(eq(b, C(8, 0)), 32))
def x_guarded(E, st, f, ins, fn, args):
    E.store(st, args[0], C(8, 1), 1)
    return done(E, st, f, ins)
def x_hash_bytes(E, st, f, ins, fn, args):
    """the standard hash of a byte range is a function of its bytes and the seed"""
    n = E.simp(st, args[1])
    if n.k != "c" or n.a > 512: return NotImplemented
    key = same_app(E, st, "hash_bytes", [E.simp(st, E.load(st, addc(args[0], i), 1)) for i in range(n.a)] + [args[2]], 64, False)
    return done(E, st, f, ins, S(64, key))
def x_ntop(E, st, f, ins, fn, args):
    """POSIX inet_ntop: the text is a function of the address and needs room for its terminator"""
    af = E.simp(st, args[0])
    if af.k != "c": return NotImplemented
    if af.a not in INET:
        errno(E, st, 97); return done(E, st, f, ins, P64(0))
    n, mx = INET[af.a]
    key = same_app(E, st, f"ntop{af.a}", [E.simp(st, E.load(st, addc(args[1], i), 1)) for i in range(n)], 64)
    L = S(64, key); GLOBAL_IV[L] = (2, mx); q = ult(L, zext(slc(args[3], 0, 32), 64)); out = []; lc = E.loc(st)
    event(E, st, "ntop", fn, args)
    E.__dict__.setdefault("texts", {})[key + "[0]"] = L
    v = st.facts.val(q)
    for s, b in ((st.copy(), True), (st, False)):
        if v is not None and b != v: continue
        if not s.facts.assume(q, b): continue
        if v is None: s.trail = (s.trail, (lc, q, b))
        if b:
            E.reads(s, args[2], addc(L, 1))
            ext, E.extents = E.extents, None            # bytes behind the terminator are as good as unwritten
            for i in range(mx + 1): E.store(s, addc(args[2], i), S(8, f"{key}[{i}]"), 1)
            E.extents = ext
        else: errno(E, s, 28)
        done(E, s, s.frames[-1], ins, args[2] if b else P64(0)); out.append(s)
    return out
def x_strlen(E, st, f, ins, fn, args):
    n = cstr_len(E, st, args[0])
    if n is not None: return done(E, st, f, ins, n)
    r = E.fresh(64, "strlen"); GLOBAL_IV[r] = (0, 1 << 40)
    event(E, st, "strlen", fn, args, ret=r)
    return done(E, st, f, ins, r)
def x_tolower(E, st, f, ins, fn, args):
    """the C locale"""
    c = args[0]; b = slc(c, 0, 8)
    if E.simp(st, slc(c, 8, 24)) is not C(24, 0): return NotImplemented
    lo, hi = (0x41, 0x5A) if "lower" in fn.sim else (0x61, 0x7A)
    up = ult(addc(b, -lo), C(8, hi - lo + 1))
    r = ite(up, addc(b, 32 if lo == 0x41 else -32), b)
    return done(E, st, f, ins, zext(r, 32))
def x_strtol(E, st, f, ins, fn, args):
    """decimal digits up to a terminator"""
    if E.simp(st, args[2]) is not C(32, 10): return NotImplemented
    v = C(64, 0)
    for i in range(19):
        b = E.simp(st, E.load(st, addc(args[0], i), 1))
        if b.k == "c" and b.a == 0 and i: break
        if st.facts.val(ult(addc(b, -48), C(8, 10))) is not True: return NotImplemented
        v = add(mul(v, C(64, 10)), addc(zext(b, 64), -48))
    else: return NotImplemented
    if not (args[1].k == "c" and args[1].a == 0): E.store(st, args[1], addc(args[0], i), 8)
    return done(E, st, f, ins, v)
def x_abort(E, st, f, ins, fn, args):
    event(E, st, "abort", fn, args)
    st.status = "abort"; st.why = fn.sim
    return []
def x_cat(E, st, f, ins, fn, args):
    """category accessors kept opaque: one address per function"""
    b = S(64, "@cat:" + fn.sim.split("(")[0], True); GLOBAL_IV[b] = (4096, PMAX)
    return done(E, st, f, ins, b)
def x_concat(E, st, f, ins, fn, args):
    sret = [i for i, a in enumerate(fn.args) if "sret" in a]
    out = args[sret[0]]; vec = args[1 - sret[0]] if len(args) == 2 else args[1]
    b, e = vget(E, st, vec)
    nb = vbuf(E, st, out, "cat"); n = E.fresh(64, "catlen"); GLOBAL_IV[n] = (0, 1 << 40)
    views = None
    try:
        ob, ofb = E.resolve(b); d = E.simp(st, sub(e, b))
        if d.k == "c" and d.a <= 16 * 64:
            views = [(E.load(st, addc(b, i), 8, True), E.load(st, addc(b, i + 8), 8)) for i in range(0, d.a, 16)]
            tot = P64(0)
            for p, k in views: tot = add(tot, k)
            n = tot
    except Exception: pass
    event(E, st, "concat", fn, args, x={"vec": vec, "begin": b, "end": e, "views": views, "buf": nb, "out": out}, ret=nb)
    if views is not None:
        pos = 0
        for p, k in views: pos = block(E, st, nb, pos, p, k)
    vset(E, st, out, nb, add(nb, n))
    return done(E, st, f, ins)
def x_opaque(E, st, f, ins, fn, args): return NotImplemented
def q_mut(E, st, f, ins, fn, args):
    vals = []
    for i, a in enumerate(args[1:], 1):
        d = deref(fn, i)
        vals.append((a, snap_obj(E, st, a, d) if d else None))
    event(E, st, "queue", fn, args, x={"q": args[0], "vals": vals, "op": fn.sim.split("(")[0].split("::")[-1]})
    d = deref(fn, 0)
    o, k = E.resolve(args[0])
    if d and k.k == "c": E.havoc(st, o, "q", sgn(k.a, 64), d)
    else: E.havoc(st, o, "q")
    return done(E, st, f, ins, E.fresh_ty(ins["t"], "qref") if "d" in ins else None)

def x_fills(E, st, f, ins, fn, args):
    """a C function that may write that many bytes to a buffer"""
    at, ln = {"ERR_error_string_n": (1, 2), "snprintf": (0, 1)}[short(fn.sim).split("(")[0]]
    o, off = E.resolve(args[at]); n = E.simp(st, args[ln])
    if o is not None and off.k == "c" and n.k == "c" and o.size is not None and not 0 <= sgn(off.a, 64) <= o.size - n.a:
        st.emit(Ev("oob", "store", (args[at], n), loc=E.loc(st), chain=E.chain(st), x=o))
    return NotImplemented
MODELS = [
    (r"^(ERR_error_string_n|snprintf)$", x_fills),
    (r"^fw_storage$", x_storage), (r"^fw_grow$", x_grow), (r"^fw_filled$", x_filled), (r"^fw_mirror$", x_mirror), (r"^fw_release$", x_release),
    (r"^std::vector::vector\(", v_ctor),
    (r"^std::vector::(emplace_back|push_back)\(", v_push),
    (r"^std::vector::(reserve|shrink_to_fit)\(", v_reserve),
    (r"^std::vector::operator=\(", v_assign),
    (r"^std::vector::clear\(", v_clear),
    (r"^std::vector::pop_back\(", v_pop),
    (r"^std::vector::(insert|emplace|assign|resize|erase)\(", v_insert),
    (r"^std::vector::~vector", nop),
    (r"^std::__cxx11::basic_string::basic_string\(", s_ctor),
    (r"^std::__cxx11::basic_string::~basic_string", s_dtor),
    (r"^std::__cxx11::basic_string::operator=\(", s_assign),
    (r"^std::__cxx11::basic_string::(append|operator\+=|push_back|insert|replace|assign|resize|erase|clear|pop_back)\(", s_mut),
    (r"^std::__cxx11::basic_string::(substr)\(", s_sub),
    (r"^std::operator\+\(", s_plus),
    (r"^std::(__cxx11::)?to_string\(", s_result),
    (r"^std::(unordered_map|map|_Hashtable|unordered_set|set)::(find|count|contains|at)\(", m_find),
    (r"^std::(unordered_map|map|_Hashtable|unordered_set|set)::(emplace|insert|try_emplace|insert_or_assign)\(", m_emplace),
    (r"^std::(unordered_map|map|_Hashtable|unordered_set|set)::erase\(", m_erase),
    (r"^std::(unordered_map|map|_Hashtable|unordered_set|set)::(unordered_map|map|_Hashtable|unordered_set|set|operator=)\(", m_move),
    (r"^std::(unordered_map|map|_Hashtable|unordered_set|set)::~", nop),
    (r"^std::variant::(variant|operator=)\(std::variant( const)?&&?\)", var_copy),
    (r"^std::__detail::__variant::_(Copy|Move)_(ctor|assign)_base::(_(Copy|Move)_ctor_base|operator=)\(", var_copy),
    (r"^std::variant::~variant|_Variant_storage::(~_Variant_storage|_M_reset)\(", nop),
    (r"^std::function::operator\(\)\(", fn_call),
    (r"^std::function::(function|operator=)\(", fn_copy),
    (r"^std::function::~function", nop),
    (r"^std::(priority_queue|queue|deque)::(emplace|push|pop|push_back|pop_front|emplace_back|clear)\(", q_mut),
    (r"^std::(priority_queue|queue|deque|list|stack)::~", nop),
    (r"^operator new", x_new),
    (r"^operator delete", x_delete),
    (r"^fw_view_require$", x_require),
    (r"^(bcmp|memcmp)$", x_cmp),
    (r"^(__builtin_)?memchr$", x_memchr), (r"^__errno_location$", x_errno), (r"^inet_pton$", x_pton), (r"^inet_ntop$", x_ntop),
    (r"^strlen$", x_strlen), (r"^to(lower|upper)$", x_tolower), (r"^(__isoc23_)?(strtol|strtoul|strtoll|strtoull)$", x_strtol),
    (r"^(abort|std::terminate|std::__throw_.*|__cxa_throw.*|std::__glibcxx_assert_fail|__assert_fail)", x_abort),
    (r"fw_maybe_category\(\)", x_cat),
    (r"^craftpp::binary::ConstView::concat\(", x_concat),
    (r"^__cxa_guard_acquire$", x_guard), (r"^__cxa_guard_release$", x_guarded), (r"^std::_Hash_bytes\(", x_hash_bytes),
    (r"^__cxa_atexit$|^__cxa_guard", nop),
]
