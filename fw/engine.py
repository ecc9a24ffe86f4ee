"""Trace-partitioned abstract interpretation of the compiler IR of /repo.

The interpreter propagates value-number terms (terms.py) under path facts
(facts.py).  Branches whose condition the facts do not decide are partitioned;
loops are unrolled only while every exit test is decided, and otherwise widened
to a header invariant (modified cells replaced by fresh values, with inductive
monotonicity / stride / bound candidates), so the traces cover every execution.
Opaque library operations become events with contracts.
"""
import re, sys
from .terms import *
from . import terms as tm
from .facts import Facts, GLOBAL_IV

PMAX = 1 << 62
import os
DEBUG = bool(os.environ.get("FW_DEBUG"))

class Unsupported(Exception): pass
import time
class Budget(Exception): pass

class Obj:
    __slots__ = ("name", "kind", "size", "base", "g", "loc")
    def __init__(self, name, kind, size, base, g=None):
        self.name = name; self.kind = kind; self.size = size; self.base = base; self.g = g; self.loc = None
    def __repr__(self): return f"<{self.name}>"

class OS:
    """state of one memory object (treated as immutable)"""
    __slots__ = ("cells", "ver", "alive", "syms", "lazy", "fill")
    def __init__(self, cells=None, ver=0, alive=True, syms=(), lazy=(), fill=None):
        self.cells = cells if cells is not None else {}
        self.ver = ver; self.alive = alive; self.syms = syms; self.lazy = lazy; self.fill = fill
    def clone(self): return OS(dict(self.cells), self.ver, self.alive, self.syms, self.lazy, self.fill)

class Ev:
    __slots__ = ("kind", "name", "args", "ret", "mem", "loc", "chain", "x", "facts", "depth")
    def __init__(self, kind, name="", args=(), ret=None, mem=None, loc="", chain=(), x=None, facts=None):
        self.kind = kind; self.name = name; self.args = args; self.ret = ret; self.mem = mem; self.loc = loc; self.chain = chain; self.x = x; self.facts = facts
    def __repr__(self):
        return f"{self.kind}:{self.name}({', '.join(map(str, self.args))})" + (f" -> {self.ret}" if self.ret is not None else "") + (f" @{self.loc}" if self.loc else "")

class Frame:
    __slots__ = ("fn", "regs", "blk", "ip", "prev", "loops", "retto", "cid", "allocas", "line")
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.regs = dict(self.regs); f.blk = self.blk; f.ip = self.ip; f.prev = self.prev
        f.loops = list(self.loops); f.retto = self.retto; f.cid = self.cid; f.allocas = self.allocas; f.line = self.line
        return f

class LoopCtx:
    __slots__ = ("hdr", "snap", "iters", "mode", "decided", "tok", "forks")
    def copy(self):
        c = LoopCtx.__new__(LoopCtx)
        for s in self.__slots__: setattr(c, s, getattr(self, s))
        return c

class LoopRec:
    """a widened loop: what one arbitrary iteration does"""
    def __init__(self, key, fn, loc): self.key = key; self.fn = fn; self.loc = loc; self.locs = {}; self.segs = []; self.head = None; self.k = None; self.entry = {}
    def __repr__(self): return f"<loop {self.loc} segs={len(self.segs)}>"

class State:
    __slots__ = ("frames", "mem", "facts", "events", "nalloc", "ret", "status", "why", "trail")
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        for f in s.frames: f.loops = [c.copy() for c in f.loops]
        s.mem = dict(self.mem); s.facts = self.facts.copy(); s.events = self.events; s.nalloc = self.nalloc
        s.ret = self.ret; s.status = self.status; s.why = self.why; s.trail = self.trail
        return s
    def evs(self):
        out = []; e = self.events
        while e: out.append(e[1]); e = e[0]
        return out[::-1]
    def emit(self, ev): self.events = (self.events, ev)

def flat(evs):
    """events including those of widened loop iterations"""
    for e in evs:
        if e.kind == "loop":
            yield e
            for s in e.x.segs: yield from flat(s["evs"])
        else: yield e

class Fn:
    """a function of the module with its natural loops"""
    def __init__(self, name, j):
        self.name = name; self.dem = j["dem"]; self.sim = j["sim"]; self.args = j["args"]; self.ret = j["ret"]; self.mem = j["mem"]
        self.noreturn = j["noreturn"]; self.rderef = j.get("rderef", 0); self.blocks = j.get("blocks"); self.file = j.get("file", ""); self.line = j.get("line", 0)
        self.loops = {}
        if self.blocks: self._loops()
    def succ(self, b):
        t = self.blocks[b][-1]
        o = t["o"]; a = t["a"]
        if o == "br": return a[1:] if len(a) == 3 else a
        if o == "switch": return [a[1]] + [x[1] for x in a[2:]]
        return []
    def _loops(self):
        n = len(self.blocks)
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succ(b): pred[s].append(b)
        # dominators
        order = []; seen = set()
        st = [(0, iter(self.succ(0)))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(self.succ(s)))); break
            else: order.append(b); st.pop()
        order.reverse(); idx = {b: i for i, b in enumerate(order)}
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps: continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while idx[x] > idx[y]: x = idom[x]
                        while idx[y] > idx[x]: y = idom[y]
                if idom.get(b) != x: idom[b] = x; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0 or b not in idom: return False
                b = idom[b]
        for b in order:
            for s in self.succ(b):
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += pred[x]

class Module:
    def __init__(self, j):
        self.fns = {n: Fn(n, f) for n, f in j["funcs"].items()}
        self.globals = j["globals"]; self.entries = j["entries"]

class Engine:
    def __init__(self, mod, models=(), max_paths=4000, max_steps=3_000_000, descend=None):
        self.m = mod
        self.models = [(re.compile(r), h) for r, h in models]
        self.mcache = {}
        self.objs = {}           # base T -> Obj
        self.init = {}           # (objname, ver) -> {off: (n, T)}
        self.uniq = 0
        self.max_paths = max_paths; self.max_steps = max_steps; self.steps = 0; self.paths = 0
        self.depth = 0; self.top_out = []; self.t_fail = None; self.linger = 4; self.deadline = None; self.failing = lambda st: False
        self.opaque = {}         # name -> count
        self.unknown = {}
        self.lines = {}          # instructions reached
        self.visited = {}        # function dem -> count
        self.sites = set()
        self.loops_seen = {}
        self.links = {}          # (object, version) -> (object, version, offset): mirrored content
        self.ltab = {}; self.fills = {}
        self.strict_objs = True
        for n, g in mod.globals.items():
            base = S(64, "@" + n, True)
            GLOBAL_IV[base] = (4096, PMAX)
            self.objs[base] = Obj("@" + n, "global", g["size"], base, g)

    def fresh(self, w, name, ptr=False):
        self.uniq += 1
        t = S(w, f"{name}#{self.uniq}", ptr)
        if ptr and w == 64: GLOBAL_IV[t] = (4096, PMAX)
        return t

    # ------------------------------------------------------------ objects
    def obj(self, base):
        o = self.objs.get(base)
        if o is None:
            o = Obj(f"*{show(base)}", "sym", None, base)
            self.objs[base] = o
            if base.w == 64 and base not in GLOBAL_IV: GLOBAL_IV[base] = (0, PMAX)
        return o
    def new_obj(self, st, name, kind, size, alive=True):
        self.uniq += 1
        base = S(64, f"&{name}#{self.uniq}", True)
        GLOBAL_IV[base] = (4096, PMAX)
        o = Obj(f"{name}#{self.uniq}", kind, size, base)
        self.objs[base] = o
        st.mem[base] = OS(alive=alive)
        return o
    def sym_obj(self, st, name, size=None):
        """symbolic input region with a readable name"""
        base = S(64, "&" + name, True)
        GLOBAL_IV[base] = (4096, PMAX)
        if base not in self.objs: self.objs[base] = Obj(name, "sym", size, base)
        if base not in st.mem: st.mem[base] = OS()
        return base

    def resolve(self, addr):
        """(Obj, offset term) of an address"""
        if addr.ptr and addr.k in ("s", "m", "op"): return self.obj(addr), C(64, 0)
        o = self.objs.get(addr)
        if o: return o, C(64, 0)
        if addr.k == "c": return None, addr
        c, d = to_lin(addr)
        cand = [x for x, f in d.items() if f == 1 and (x.ptr or x in self.objs)]
        if not cand and len(d) == 1 or not cand and addr.k in ("cat",) and len(addr.a) == 1:
            cand = [x for x, f in d.items() if f == 1]
        if not cand:
            cand = [x for x, f in d.items() if f == 1 and x.w == 64 and x.k in ("s", "m") and hi0(x) == 0][:1]
        if not cand:
            if addr.k == "cat" and addr.w == 64 and all(p[0] is not None for p in addr.a):
                addr.ptr = True
                return self.obj(addr), C(64, 0)
            if addr.k == "op": addr.ptr = True; return self.obj(addr), C(64, 0)
            raise Unsupported(f"address {addr}")
        if len(cand) > 1:
            known = [x for x in cand if x in self.objs]
            cand = known or cand
        b = cand[0]
        del d[b]
        return self.obj(b), from_lin(64, c, d)

    # ------------------------------------------------------------ memory
    def init_load(self, o, osv, off, n, isptr, rng=None, ver=None):
        """initial content of (object, version) at a constant offset"""
        ver = osv.ver if ver is None else ver
        l = self.links.get((o.name, ver))
        if l: return self.symload(l[0], OS(ver=l[1]), addc(l[2], off), n)
        if o.kind == "global" and n == 8:
            # the dynamic type of a constant-initialised object never changes
            for ro, v in o.g.get("rel", ()):
                if ro == off and "_ZTV" in str(v): return self.const_val(v)
        if o.kind == "global" and ver == 0:
            g = o.g
            if o.name.startswith("@_ZGV"): return C(8 * n, 0 if getattr(self, "statics", False) else 1)
            if g["const"] or o.name in getattr(self, "const_globals", ()):
                if "init" in g:
                    v = self.global_bytes(o, off, n)
                    if v is not None: return v
        key = (o.name, ver)
        tab = self.init.setdefault(key, {})
        hit = tab.get(off)
        if hit and hit[0] == n: t = hit[1]
        else:
            over = [(a, m, t) for a, (m, t) in tab.items() if a < off + n and off < a + m]
            if not over:
                nm = "undef" if o.kind == "alloca" and ver == 0 else None
                if rng and rng[1] <= (1 << (8 * n)) and rng[0] == 0 and (rng[1] & (rng[1] - 1)) == 0:
                    b = rng[1].bit_length() - 1
                    t = zext(tm._mk("m", b, (o.name, ver, off)), 8 * n) if b else C(8 * n, 0)
                else:
                    t = tm._mk("m", 8 * n, (o.name, ver, off))
                    if rng and rng[0] <= rng[1] - 1: GLOBAL_IV[t] = (rng[0], rng[1] - 1)
                tab[off] = (n, t)
            else:
                out = []; pos = off
                for a, m, t in sorted(over, key=lambda x: x[0]):
                    if a > pos: out.append(self.init_load(o, osv, pos, a - pos, False, ver=ver)); pos = a
                    e = min(a + m, off + n)
                    out.append(slc(t, 8 * (pos - a), 8 * (e - pos))); pos = e
                if pos < off + n: out.append(self.init_load(o, osv, pos, off + n - pos, False, ver=ver))
                t = cat(out)
        return t
    def global_bytes(self, o, off, n):
        g = o.g
        if off < 0 or off + n > g["size"]: return None
        for ro, v in g["rel"]:
            if ro < off + n and off < ro + 8:
                if ro == off and n == 8: return self.const_val(v)
                return None
        return C(8 * n, int.from_bytes(bytes.fromhex(g["init"][2 * off:2 * (off + n)]), "little"))

    def os(self, st, base):
        s = st.mem.get(base)
        if s is None:
            s = OS(); st.mem[base] = s
        return s

    def load(self, st, addr, n, isptr=False, rng=None, ins=None):
        o, off = self.resolve(addr)
        if o is None:
            st.emit(Ev("null", "load", (addr,), loc=self.loc(st))); return self.fresh(8 * n, "null")
        s = self.os(st, o.base)
        if not s.alive: st.emit(Ev("dead", "load", (addr,), loc=self.loc(st), chain=self.chain(st), x=o))
        if off.k != "c":
            v = self.simp(st, off)
            if v.k == "c": off = v
        if self.extents is not None: self.access(st, o, off, C(64, n))
        if off.k == "c":
            k = sgn(off.a, 64)
            if o.size is not None and not (0 <= k and k + n <= o.size):
                st.emit(Ev("oob", "load", (addr, C(64, n)), loc=self.loc(st), chain=self.chain(st), x=o))
            t = self.load_c(st, o, s, k, n, isptr, rng)
        else:
            t = self.load_s(st, o, s, off, n)
            if self.bytesyms and n > 1 and not isptr and t.k == "m" and o.kind != "global": t = cat([tm._mk("m", 8, (t.a[0], t.a[1], addc(t.a[2], i))) for i in range(n)])
        if isptr: self.mark_ptr(t)
        return t
    def mark_ptr(self, t):
        if t.k in ("s", "m", "op") or (t.k == "cat" and t.w == 64 and t not in self.objs):
            if not t.ptr and t.w == 64:
                if hi0(t) > 0: return
                t.ptr = True
                if t not in GLOBAL_IV: GLOBAL_IV[t] = (0, PMAX)
    unroll = 300         # rounds of a loop with decided exits before it is widened
    bytesyms = False     # words read at symbolic offsets are their bytes (for inputs that are byte regions)
    extents = None       # what is known of the sizes of input objects; None: accesses are not looked at
    within = None
    def access(self, st, o, off, n):
        """n bytes at off of o: an obligation wherever it is not settled by constants"""
        size = self.extents.get(o.base)
        if size is None:
            if o.size is None or off.k == "c" and n.k == "c": return
            size = C(64, o.size)
        ok = self.within(st.facts, off, n, size)
        st.emit(Ev("require", o.name, (size, off, n), loc=self.loc(st), x={"ok": ok, "rule": "accesses stay within their object", "facts": None if ok else st.facts.copy(), "trail": st.trail, "chain": self.chain(st)}))
    def reads(self, st, addr, n):
        dying = getattr(self, "dying", False)
        if self.extents is None and not dying: return
        try: o, off = self.resolve(addr)
        except Unsupported: return
        if o is not None:
            n = self.simp(st, n)
            if n.k == "c" and n.a == 0: return
            if dying and o.base in st.mem and not st.mem[o.base].alive: st.emit(Ev("dead", "load", (addr,), loc=self.loc(st), chain=self.chain(st), x=o))
            if self.extents is not None: self.access(st, o, self.simp(st, off), n)
    def load_c(self, st, o, s, k, n, isptr=False, rng=None):
        hit = s.cells.get(k)
        if hit and hit[0] == n:
            t = hit[1]
            if not self.may_shadow(st, s, k, n): return t
        for (so, sn, sv) in reversed(s.syms):
            d = self.simp(st, sub(so, C(64, k)))
            if d.k == "c" and d.a == 0 and sn == n: return sv
            if self.disjoint(st, so, sn, C(64, k), n): continue
            return self.fresh(8 * n, f"mayalias[{o.name}+{k}]")
        if hit and hit[0] == n: return hit[1]
        over = sorted((a, m, t) for a, (m, t) in s.cells.items() if a < k + n and k < a + m) if s.cells else []
        if not over: return self.under(st, o, s, k, n, isptr, rng)
        out = []; pos = k
        for a, m, t in over:
            if a > pos: out.append(self.under(st, o, s, pos, a - pos)); pos = a
            e = min(a + m, k + n)
            if e <= pos: continue
            out.append(slc(t, 8 * (pos - a), 8 * (e - pos))); pos = e
        if pos < k + n: out.append(self.under(st, o, s, pos, k + n - pos))
        return cat(out)
    def may_shadow(self, st, s, k, n): return bool(s.syms)
    def under(self, st, o, s, k, n, isptr=False, rng=None):
        for lo, hi, so, sver, soff in reversed(s.lazy):
            if lo <= k and k + n <= hi:
                t = self.filled(st, so.name, sver, C(64, k - lo + soff), n) if self.fills else None
                return t if t is not None else self.init_load(so, None, k - lo + soff, n, isptr, rng, ver=sver)
            if k < hi and lo < k + n:
                out = []
                for i in range(n): out.append(self.under(st, o, s, k + i, 1))
                return cat(out)
        if s.fill is not None: return cat([s.fill] * n) if n > 1 else s.fill
        if self.fills:
            t = self.filled(st, o.name, s.ver, C(64, k), n)
            if t is not None: return t
        return self.init_load(o, s, k, n, isptr, rng)
    def disjoint(self, st, a, an, b, bn):
        d = sub(b, a)
        if d.k == "c":
            x = sgn(d.a, 64)
            return x >= an or -x >= bn
        f = st.facts
        return f.val(ule(addc(a, an), b)) is True or f.val(ule(addc(b, bn), a)) is True
    def load_s(self, st, o, s, off, n):
        if o.kind == "global" and (o.g["const"] or o.name in getattr(self, "const_globals", ())):
            return self.symload(o, s, off, n)
        for (so, sn, sv) in reversed(s.syms):
            d = sub(off, so)
            if d.k == "c":
                x = sgn(d.a, 64)
                if x == 0 and sn == n: return sv
                if 0 <= x and x + n <= sn: return slc(sv, 8 * x, 8 * n)
                if x >= sn or -x >= n: continue
            if self.disjoint(st, so, sn, off, n): continue
            return self.fresh(8 * n, f"mayalias[{o.name}]")
        # constant cells written?
        for a, (m, t) in s.cells.items():
            if self.disjoint(st, C(64, a), m, off, n): continue
            return self.fresh(8 * n, f"maycell[{o.name}]")
        for lo, hi, so, sver, soff in reversed(s.lazy):
            whole = lo <= -(1 << 61) and hi >= 1 << 61
            if not whole:
                a, b = st.facts.rng(off)
                if b < 1 << 62 and (b + n <= lo or a >= hi): continue
                whole = b < 1 << 62 and lo <= a and b + n <= hi
            if not whole: return self.fresh(8 * n, f"maylazy[{o.name}]")
            t = self.filled(st, so.name, sver, addc(off, soff - lo), n) if self.fills else None
            return t if t is not None else self.symload(so, OS(ver=sver), addc(off, soff - lo), n)
        if s.fill is not None: return cat([s.fill] * n) if n > 1 else s.fill
        t = self.filled(st, o.name, s.ver, off, n) if self.fills else None
        return t if t is not None else self.symload(o, s, off, n)
    def symload(self, o, s, off, n):
        l = self.links.get((o.name, s.ver))
        if l: return self.symload(l[0], OS(ver=l[1]), add(off, l[2]), n)
        if o.kind == "global" and o.g["const"]:
            t = self.linear_table(o, off, n)
            if t is not None: return t
        # word-sized elements of data structures keep one atom (see bytesyms)
        return tm._mk("m", 8 * n, (o.name, s.ver, off))

    def linear_table(self, o, off, n):
        """a constant table that is linear over GF(2) reads as the exclusive or of its index bits"""
        if off.k == "cat": c, d = 0, {off: 1}
        else: c, d = to_lin(off)
        if len(d) != 1: return None
        (x, f), = d.items()
        if f != n:
            # a scaled index is a shifted slice
            if f != 1 or x.k != "cat" or x.a[0][0] is not None or x.a[0][1] != 0 or 1 << x.a[0][2] != n: return None
            idx = slc(x, x.a[0][2], x.w - x.a[0][2])
        else: idx = x
        b = idx.w - hi0(idx)
        if not 0 < b <= 8: return None
        key = (o.name, c, n, b)
        r = self.ltab.get(key, 0)
        if r == 0:
            ent = [self.global_bytes(o, c + i * n, n) for i in range(1 << b)]
            r = None
            if all(e is not None and e.k == "c" for e in ent):
                v = [e.a for e in ent]
                if v[0] == 0 and all(v[i] == v[i & (i - 1)] ^ v[i & -i] for i in range(1, 1 << b)): r = [v[1 << i] for i in range(b)]
            self.ltab[key] = r
        if r is None: return None
        bits = []
        for j in range(8 * n):
            xs = [slc(idx, i, 1) for i in range(b) if r[i] >> j & 1]
            bits.append(xor(xs[0], xs[1]) if len(xs) == 2 else bitop("xor", *xs) if xs else C(1, 0))
        return cat(bits)
    def store(self, st, addr, t, n):
        o, off = self.resolve(addr)
        if o is None:
            st.emit(Ev("null", "store", (addr,), loc=self.loc(st))); return
        s = self.os(st, o.base)
        if not s.alive: st.emit(Ev("dead", "store", (addr,), loc=self.loc(st), chain=self.chain(st), x=o))
        if o.kind == "global": st.emit(Ev("gstore", o.name, (addr, t), loc=self.loc(st), chain=self.chain(st), x=o))
        if off.k != "c":
            v = self.simp(st, off)
            if v.k == "c": off = v
        if t.w % 8: t = zext(t, 8 * n)
        if self.extents is not None: self.access(st, o, off, C(64, n))
        if off.k == "c":
            k = sgn(off.a, 64)
            if o.size is not None and not (0 <= k and k + n <= o.size):
                st.emit(Ev("oob", "store", (addr, C(64, n)), loc=self.loc(st), chain=self.chain(st), x=o))
            s2 = s.clone()
            if s2.syms:
                keep = []
                for (so, sn, sv) in s2.syms:
                    keep.append((so, sn, sv))
                keep.append((C(64, k), n, t))
                s2.syms = tuple(keep)
            else: self.put(s2, k, n, t)
            st.mem[o.base] = s2
        else:
            s2 = s.clone()
            s2.syms = s2.syms + ((off, n, t),)
            st.mem[o.base] = s2
            st.emit(Ev("wstore", o.name, (addr, t), loc=self.loc(st), chain=self.chain(st), x=(o, off, n)))
    def put(self, s, k, n, t):
        c = s.cells
        hit = c.get(k)
        if not (hit and hit[0] == n):
            for a in [a for a, (m, _) in c.items() if a < k + n and k < a + m]:
                m, v = c.pop(a)
                if a < k: c[a] = (k - a, slc(v, 0, 8 * (k - a)))
                if a + m > k + n: c[k + n] = (a + m - k - n, slc(v, 8 * (k + n - a), 8 * (a + m - k - n)))
        c[k] = (n, t)

    def copy_mem(self, st, dst, src, n):
        """memmove of a constant size keeping the granularity of the source"""
        if n == 0: return
        od, offd = self.resolve(dst); os_, offs = self.resolve(src)
        if od is None or os_ is None:
            st.emit(Ev("null", "memcpy", (dst, src), loc=self.loc(st))); return
        offd, offs = self.simp(st, offd), self.simp(st, offs)
        ss = self.os(st, os_.base)
        if not ss.alive: st.emit(Ev("dead", "load", (src,), loc=self.loc(st), chain=self.chain(st), x=os_))
        if offd.k != "c" or offs.k != "c" or ss.syms or self.os(st, od.base).syms:
            if n <= 32:
                v = [self.load(st, addc(src, i), 1) for i in range(n)] if n <= 16 and n not in (2, 4, 8) else [self.load(st, addc(src, 8 * i), 8) for i in range(n // 8)] + ([self.load(st, addc(src, n - n % 8), n % 8)] if n % 8 else [])
                self.store(st, dst, cat(v), n)
            else:
                st.emit(Ev("copy", "memcpy", (dst, src, C(64, n)), loc=self.loc(st)))
                self.havoc(st, od, "memcpy")
            return
        kd, ks = sgn(offd.a, 64), sgn(offs.a, 64)
        if self.extents is not None: self.access(st, od, offd, C(64, n)); self.access(st, os_, offs, C(64, n))
        for o, k, what in ((od, kd, "store"), (os_, ks, "load")):
            if o.size is not None and not (0 <= k and k + n <= o.size):
                st.emit(Ev("oob", what, (dst if o is od else src, C(64, n)), loc=self.loc(st), chain=self.chain(st), x=o))
        if od.kind == "global": st.emit(Ev("gstore", od.name, (dst, src), loc=self.loc(st), chain=self.chain(st), x=od))
        dd = self.os(st, od.base)
        if not dd.alive: st.emit(Ev("dead", "store", (dst,), loc=self.loc(st), chain=self.chain(st), x=od))
        # collect the source
        cells = []; pos = ks
        for a, (m, t) in sorted(ss.cells.items()):
            if a + m <= ks or a >= ks + n: continue
            lo, hi = max(a, ks), min(a + m, ks + n)
            cells.append((lo - ks, hi - lo, slc(t, 8 * (lo - a), 8 * (hi - lo))))
        lazy = []
        gap = ks
        def fillgap(a, b):
            # [a,b) of the source has initial content
            if ss.fill is not None:
                cells.append((a - ks, b - a, cat([ss.fill] * (b - a)))); return
            rest = [(a, b)]
            for lo, hi, so, sver, soff in reversed(ss.lazy):
                nr = []
                for x, y in rest:
                    p, q = max(x, lo), min(y, hi)
                    if p < q:
                        lazy.append((p - ks + kd, q - ks + kd, so, sver, soff + p - lo))
                        if x < p: nr.append((x, p))
                        if q < y: nr.append((q, y))
                    else: nr.append((x, y))
                rest = nr
            for x, y in rest: lazy.append((x - ks + kd, y - ks + kd, os_, ss.ver, x))
        for c in sorted(cells, key=lambda c: c[0]):
            if c[0] + ks > gap: fillgap(gap, c[0] + ks)
            gap = c[0] + c[1] + ks
        if gap < ks + n: fillgap(gap, ks + n)
        d2 = dd.clone()
        for a in [a for a, (m, _) in d2.cells.items() if a < kd + n and kd < a + m]:
            m, v = d2.cells.pop(a)
            if a < kd: d2.cells[a] = (kd - a, slc(v, 0, 8 * (kd - a)))
            if a + m > kd + n: d2.cells[kd + n] = (a + m - kd - n, slc(v, 8 * (kd + n - a), 8 * (a + m - kd - n)))
        d2.lazy = d2.lazy + tuple(lazy)
        for a, m, t in cells: d2.cells[kd + a] = (m, t)
        st.mem[od.base] = d2

    def havoc(self, st, o, tag="", lo=0, n=None):
        self.uniq += 1
        s = self.os(st, o.base)
        if n is not None and not s.syms:
            s2 = s.clone()
            for a in [a for a, (m, _) in s2.cells.items() if a < lo + n and lo < a + m]:
                m, v = s2.cells.pop(a)
                if a < lo: s2.cells[a] = (lo - a, slc(v, 0, 8 * (lo - a)))
                if a + m > lo + n: s2.cells[lo + n] = (a + m - lo - n, slc(v, 8 * (lo + n - a), 8 * (a + m - lo - n)))
            src = Obj(f"{o.name}+{lo}" if lo else o.name, "havoc", None, None)
            s2.lazy = s2.lazy + ((lo, lo + n, src, f"{tag}{self.uniq}", 0),)
            st.mem[o.base] = s2
            return src.name, f"{tag}{self.uniq}"
        st.mem[o.base] = OS({}, f"{tag}{self.uniq}", s.alive)
        return o.name, f"{tag}{self.uniq}"

    def simp(self, st, t):
        if t.k == "c": return t
        lo, hi = st.facts.rng(t)
        if lo == hi: return C(t.w, lo)
        return t

    # ------------------------------------------------------------ values
    def const_val(self, v):
        k = v[0]
        if k == "c": return C(v[1], int(v[2]))
        if k == "g":
            n = v[1]
            if n in self.m.fns: base = S(64, "fn:" + n, True); return addc(base, v[2]) if v[2] else base
            base = S(64, "@" + n, True)
            if base not in self.objs:
                self.objs[base] = Obj("@" + n, "global", None, base, {"const": False, "size": 1 << 40, "rel": []})
                GLOBAL_IV[base] = (4096, PMAX)
            return addc(base, v[2]) if v[2] else base
        raise Unsupported(f"constant {v}")
    def zero(self, ty):
        if isinstance(ty, int): return C(ty, 0)
        if ty == "p": return C(64, 0)
        if ty == "f32": return C(32, 0)
        if ty == "f64": return C(64, 0)
        if ty[0] == "S": return tuple(self.zero(x) for x in ty[1])
        if ty[0] == "A": return tuple(self.zero(ty[1]) for _ in range(ty[2]))
        if ty[0] == "V": return C(self.bits(ty), 0)
        raise Unsupported(f"zero {ty}")
    def undef(self, ty):
        if isinstance(ty, int): return self.fresh(ty, "undef")
        if ty == "p": return self.fresh(64, "undef", True)
        if ty in ("f32", "f64"): return self.fresh(32 if ty == "f32" else 64, "undef")
        if ty[0] == "S": return tuple(self.undef(x) for x in ty[1])
        if ty[0] == "A": return tuple(self.undef(ty[1]) for _ in range(ty[2]))
        if ty[0] == "V": return self.fresh(self.bits(ty), "undef")
        raise Unsupported(f"undef {ty}")
    def bits(self, ty):
        if isinstance(ty, int): return ty
        if ty == "p": return 64
        if ty == "f32": return 32
        if ty == "f64": return 64
        if ty[0] == "V": return self.bits(ty[1]) * ty[2]
        raise Unsupported(f"bits {ty}")
    def val(self, fr, v):
        k = v[0]
        if k == "r":
            return fr.regs[v[1]]
        if k == "c": return C(v[1], int(v[2]))
        if k == "g": return self.const_val(v)
        if k == "u": return self.undef(v[1])
        if k == "z": return self.zero(v[1])
        if k == "agg":
            xs = tuple(self.val(fr, x) for x in v[1])
            return xs
        if k == "ce":
            if v[1] in ("ptrtoint", "inttoptr", "bitcast"): return self.val(fr, v[3][0])
            if v[1] == "sub": return sub(self.val(fr, v[3][0]), self.val(fr, v[3][1]))
            raise Unsupported(f"constexpr {v[1]}")
        if k == "m": return None
        raise Unsupported(f"value {v}")

    # ------------------------------------------------------------ locations
    def loc(self, st):
        for f in reversed(st.frames):
            ins = f.line
            if not ins: continue
            for c in ins:
                if c.startswith(REPO + "/"): return ":".join(c[len(REPO) + 1:].split(":")[:2])
        f = st.frames[-1].line if st.frames else None
        return ":".join(f[0].split(":")[:2]) if f else ""
    def chain(self, st):
        out = []
        for f in reversed(st.frames):
            if f.line: out += list(f.line)
        return tuple(out[:24])

    # ------------------------------------------------------------ calls
    def start(self, fname, args, st=None):
        if st is None:
            st = State()
            st.frames = []; st.mem = {}; st.facts = Facts(); st.events = None; st.nalloc = 0; st.ret = None; st.status = None; st.why = ""; st.trail = None
        self.push(st, self.m.fns[fname], args, None, ("top",))
        return st
    def push(self, st, fn, args, retto, cid):
        f = Frame()
        f.fn = fn; f.regs = {i: a for i, a in enumerate(args)}; f.blk = 0; f.ip = 0; f.prev = None; f.loops = []; f.retto = retto; f.cid = cid; f.allocas = (); f.line = None
        self.visited[fn.dem] = self.visited.get(fn.dem, 0) + 1
        if len(st.frames) > 60: raise Unsupported("call depth")
        st.frames.append(f)
        if 0 in fn.loops: raise Unsupported("entry block loop")

    def model_for(self, name, dem):
        r = self.mcache.get(name, 0)
        if r == 0:
            r = None
            for rx, h in self.models:
                if rx.search(dem): r = h; break
            self.mcache[name] = r
        return r

    # ------------------------------------------------------------ exploration
    def explore(self, st0, stop=frozenset()):
        """all outcomes of a state; `stop` holds the loops whose exits are cut (discovery)"""
        work = [st0]; out = []
        top = not self.depth
        if top: self.top_out = out; self.t_fail = None
        self.depth += 1
        try: return self.explore_(work, out, stop, top)
        finally: self.depth -= 1
    def explore_(self, work, out, stop, top):
        while work:
            st = work.pop()
            try:
                r = self.run(st, stop)
            except RecursionError as e:
                raise Unsupported("recursion") from e
            if isinstance(r, list): work.extend(reversed(r))
            else:
                if st.status: out.append(st)
                self.paths += 1
                if top and st.status and self.t_fail is None and self.failing(st): self.t_fail = time.time()
                if self.t_fail is not None and time.time() - self.t_fail > self.linger: raise Budget("stopped: a violation was found")
                if self.paths > self.max_paths: raise Budget(f"paths > {self.max_paths}")
        return out

    def goto(self, st, b, stop):
        """control transfer inside the top frame; returns None or list of states"""
        f = st.frames[-1]
        fn = f.fn
        while f.loops and b not in fn.loops[f.loops[-1].hdr]:
            c = f.loops.pop()
            if c.tok is not None and c.tok in stop: st.status = "cut"; return []
        f.prev, f.blk, f.ip = f.blk, b, 0
        if b in fn.loops:
            if f.loops and f.loops[-1].hdr == b:
                c = f.loops[-1]
                if c.mode == "gen":
                    st.status = "back"; return []
                c.iters += 1; c.decided = False
                if c.iters > self.unroll: return self.generalise(c.snap, b, stop)
            else:
                c = LoopCtx(); c.hdr = b; c.iters = 0; c.mode = "unroll"; c.decided = False; c.tok = None; c.forks = 0; c.snap = None
                c.snap = st.copy()      # at the header, phis not evaluated
                f.loops.append(c)
        self.phis(st)
        return None
    def phis(self, st):
        f = st.frames[-1]
        blk = f.fn.blocks[f.blk]; vals = []; i = 0
        while i < len(blk) and blk[i]["o"] == "phi":
            ins = blk[i]
            for p, v in ins["a"]:
                if p == f.prev: vals.append((ins["d"], self.val(f, v))); break
            i += 1
        for d, v in vals: f.regs[d] = v
        f.ip = i

    PURE = {"icmp", "and", "or", "xor", "zext", "sext", "trunc", "add", "sub"}
    def byte_chain(self, st, x, edges, stop):
        """A cascade of tests on one byte: follow the blocks that only test x for each set of
        its values and continue once per place where the cascade ends (instead of once per
        test).  edges: [(mask, block)]; None when nothing would be joined."""
        f = st.frames[-1]; fn = f.fn; loop = f.loops[-1] if f.loops else None
        body = fn.loops[loop.hdr] if loop else None
        full = (1 << (1 << x.w)) - 1
        def D(s):
            m = s.facts.dom.get(x)
            if m is None: a, b = s.facts.rng(x); m = ((1 << (b + 1)) - 1) & ~((1 << a) - 1)
            return m
        def pure(b):
            if b in fn.loops or (body is not None and b not in body): return False
            blk = fn.blocks[b]
            return all(i["o"] in self.PURE or i["o"] == "phi" for i in blk[:-1]) and blk[-1]["o"] in ("br", "switch")
        def test(c):
            tr = truth8(c)
            return tr[1] if tr and tr[0] is x else (full if c.a else 0) if c.k == "c" else None
        def joined(es):
            q = {}
            for m, b in es: q[b] = q.get(b, 0) | m
            return q.items()
        work = [(f.blk, b, m, f.regs) for b, m in joined(edges)]; leaves = 0; exits = {}
        while work:
            prev, b, m, regs = work.pop()
            if not m: continue
            blk = fn.blocks[b]
            g = Frame(); g.fn = fn; g.regs = dict(regs); g.blk = b; g.prev = prev; g.ip = 0; g.loops = []; g.allocas = (); g.line = f.line; g.retto = None; g.cid = None
            t = State(); t.frames = [g]; t.mem = st.mem; t.facts = st.facts; t.events = None; t.nalloc = 0; t.ret = None; t.status = None; t.why = ""; t.trail = None
            self.phis(t); nph = g.ip
            nxt = None
            if pure(b) and len(exits) + len(work) < 24:
                try:
                    while g.ip < len(blk) - 1:
                        if getattr(self, "i_" + blk[g.ip]["o"])(t, g, blk[g.ip], stop) is not None: raise KeyError
                    br = blk[-1]; a = br["a"]
                    if br["o"] == "br":
                        if len(a) == 1: nxt = [(a[0], full)]
                        else:
                            k = test(self.val(g, a[0]))
                            if k is not None: nxt = [(a[1], k), (a[2], full & ~k)]
                    else:
                        y = self.val(g, a[0]); left = full; nxt = []
                        for cv, to in a[2:]:
                            k = test(eq(y, C(int(cv[1]), int(cv[2]))))
                            if k is None: nxt = None; break
                            nxt.append((to, k)); left &= ~k
                        else: nxt.append((a[1], left))
                except (KeyError, Unsupported): nxt = None
            if nxt is not None:
                work += [(b, to, m & k, g.regs) for to, k in joined((k, to) for to, k in nxt)]
                continue
            leaves += 1
            key = (b,) + tuple(id(g.regs[i["d"]]) for i in blk[:nph])
            e = exits.get(key)
            if e is None: exits[key] = [prev, b, m, {i: v for i, v in regs.items()}]
            else:
                e[2] |= m
                e[3] = {i: v for i, v in e[3].items() if regs.get(i) is v}
                # the values its phis pick must survive on the edge that is kept
                p2 = e[0]
                if any(v[0] == "r" and int(v[1]) not in e[3] for i in blk[:nph] for p, v in i["a"] if p == p2 and isinstance(v, (list, tuple)) and v and v[0] == "r"): return None
        if leaves <= len(exits) and len(edges) <= len(exits): return None
        if loop and loop.mode == "unroll" and not loop.decided and len({e[1] in body for e in exits.values()}) > 1: return None
        out = []; lc = self.loc(st); es = list(exits.values())
        for i, (prev, b, m, regs) in enumerate(es):
            s2 = st.copy() if i + 1 < len(es) else st
            c = self.members(x, m)
            if not s2.facts.assume(c, True): continue
            s2.trail = (s2.trail, (lc, c, True))
            h = s2.frames[-1]; h.regs = dict(regs); h.blk = prev
            out += self.settle(s2, b, stop)
        return out
    def members(self, x, m):
        """x is one of the values of the mask"""
        t = []; v = 0; n = 1 << x.w
        while v < n:
            if m >> v & 1:
                e = v
                while e < n and m >> e & 1: e += 1
                t.append(eq(x, C(x.w, v)) if e == v + 1 else ult(sub(x, C(x.w, v)), C(x.w, e - v)) if e - v < n else TRUE); v = e
            else: v += 1
        r = FALSE
        for y in t: r = bor(r, y)
        return r
    def branch(self, st, cond, tt, ff, stop):
        f = st.frames[-1]
        v = st.facts.val(cond)
        loop = f.loops[-1] if f.loops else None
        isexit = False
        if loop and loop.mode == "unroll":
            body = f.fn.loops[loop.hdr]
            isexit = (tt in body) != (ff in body)
        if v is not None:
            if isexit: loop.decided = True
            r = self.goto(st, tt if v else ff, stop)
            return r
        if isexit and not loop.decided:
            return self.generalise(loop.snap, loop.hdr, stop)
        if loop and loop.mode == "unroll":
            loop.forks += 1
            if loop.forks > 40: return self.generalise(loop.snap, loop.hdr, stop)
        tr = truth8(cond)
        if tr and 1 < tr[0].w <= 8:
            full = (1 << (1 << tr[0].w)) - 1
            m = st.facts.dom.get(tr[0])
            if m is None: a, b = st.facts.rng(tr[0]); m = ((1 << (b + 1)) - 1) & ~((1 << a) - 1)
            r = self.byte_chain(st, tr[0], [(m & tr[1], tt), (m & full & ~tr[1], ff)], stop)
            if r is not None: return r
        # split conjunctions first so that facts stay atomic
        c = cond; negd = False
        while c.k == "op" and c.a[0] == "not": c = c.a[1]; negd = not negd
        out = []
        x = self.atom(st, c)
        if x is not None:
            # decide the leaves of a nested condition one after the other so that facts stay atomic
            s2 = st.copy(); lc = self.loc(st)
            for s3, b in ((st, True), (s2, False)):
                if s3.facts.assume(x, b):
                    s3.trail = (s3.trail, (lc, x, b))
                    r = self.branch(s3, cond, tt, ff, stop)
                    out += [s3] if r is None else [s3] if r == [] and s3.status else r
            return out
        if c.k == "op" and c.a[0] == "band":
            # c true: all true ; c false: first false, or first true & second false ...
            subs = list(c.a[1:])
            acc = st
            rest = []
            for i, x in enumerate(subs):
                xv = acc.facts.val(x)
                if xv is True: continue
                if xv is False:
                    rest.append((acc, False)); acc = None; break
                s2 = acc.copy()
                lc = self.loc(acc)
                if s2.facts.assume(x, False):
                    s2.trail = (s2.trail, (lc, x, False)); rest.append((s2, False))
                if not acc.facts.assume(x, True): acc = None; break
                acc.trail = (acc.trail, (lc, x, True))
            if acc is not None: rest.append((acc, True))
            for s2, b in rest:
                b = b != negd
                out += self.settle(s2, tt if b else ff, stop)
            return out
        s2 = st.copy(); lc = self.loc(st)
        if st.facts.assume(cond, True):
            st.trail = (st.trail, (lc, cond, True)); out += self.settle(st, tt, stop)
        if s2.facts.assume(cond, False):
            s2.trail = (s2.trail, (lc, cond, False)); out += self.settle(s2, ff, stop)
        return out
    def atom(self, st, c):
        """first undecided leaf of a condition that is more than a conjunction of leaves"""
        def core(x):
            while x.k == "op" and x.a[0] == "not": x = x.a[1]
            return x
        def compound(x): return x.k == "op" and x.w == 1 and (x.a[0] in ("band", "bxor") or x.a[0] == "ite")
        c = core(c)
        if not compound(c): return None
        if c.a[0] == "band" and not any(compound(core(x)) for x in c.a[1:]): return None
        def leaf(x):
            x = core(x)
            if st.facts.val(x) is not None: return None
            if not compound(x): return x
            for y in x.a[1:]:
                l = leaf(y)
                if l is not None: return l
            return None
        return leaf(c)
    def settle(self, st, b, stop):
        r = self.goto(st, b, stop)
        if r is None: return [st]
        if r == []: return [st] if st.status else []
        return r

    def run(self, st, stop):
        if st.status: return None
        while True:
            f = st.frames[-1]
            blk = f.fn.blocks[f.blk]
            ins = blk[f.ip]
            self.steps += 1
            if self.steps > self.max_steps: raise Budget("steps at " + " < ".join(f"{short(x.fn.dem)[:60]}@{(x.line or [''])[0].split('/')[-1]}" for x in st.frames[::-1][:6]))
            if not self.steps & 1023 and self.deadline and time.time() > self.deadline: raise Budget("out of time at " + self.loc(st))
            if "lc" in ins: f.line = ins["lc"]; self.lines[id(ins)] = ins
            o = ins["o"]
            h = getattr(self, "i_" + o, None)
            if h is None: raise Unsupported(f"instruction {o}")
            r = h(st, f, ins, stop)
            if r is None: continue
            if st.status: return None if not r else r
            return r

    # ------------------------------------------------------------ instructions
    def setr(self, f, ins, v):
        f.regs[ins["d"]] = v; f.ip += 1
    def i_alloca(self, st, f, ins, stop):
        o = self.new_obj(st, f"{short(f.fn.dem)}.%{ins['d']}", "alloca", ins["a"][0])
        o.loc = ins.get("l")
        f.allocas = f.allocas + (o.base,)
        self.setr(f, ins, o.base)
    def i_load(self, st, f, ins, stop):
        ty = ins["t"]; n = ins["a"][1]
        addr = self.val(f, ins["a"][0])
        if isinstance(ty, list) and ty[0] == "S": raise Unsupported("aggregate load")
        t = self.load(st, addr, n, ty == "p", ins.get("rng"), ins)
        if ty == "p" and n == 8 and t.k == "m" and t.a[0].startswith("@") and isinstance(t.a[2], T):
            out = self.pick_entry(st, f, ins, t)
            if out: return out
        w = self.bits(ty)
        if t.w != w: t = slc(t, 0, w)
        self.setr(f, ins, t)
    def i_store(self, st, f, ins, stop):
        v = self.val(f, ins["a"][0])
        if isinstance(v, tuple): raise Unsupported("aggregate store")
        self.store(st, self.val(f, ins["a"][1]), v, ins["a"][2]); f.ip += 1
    def i_getelementptr(self, st, f, ins, stop):
        a = ins["a"]
        if a[0] == "?": raise Unsupported("gep")
        t = addc(self.val(f, a[0]), a[1])
        for v, k in a[2:]:
            x = self.val(f, v)
            if x.w < 64: x = sext(x, 64)
            t = add(t, mulc(x, k))
        self.setr(f, ins, t)
    def binop(self, st, f, ins, fn):
        x, y = self.val(f, ins["a"][0]), self.val(f, ins["a"][1])
        self.setr(f, ins, fn(x, y))
    def i_add(self, st, f, ins, *_): self.binop(st, f, ins, lambda x, y: add(x, y) if x.w > 1 else bxor(x, y))
    def i_sub(self, st, f, ins, *_): self.binop(st, f, ins, sub)
    def i_mul(self, st, f, ins, *_): self.binop(st, f, ins, mul)
    def i_and(self, st, f, ins, *_): self.binop(st, f, ins, lambda x, y: band(x, y) if x.w == 1 else and_(x, y))
    def i_or(self, st, f, ins, *_): self.binop(st, f, ins, lambda x, y: bor(x, y) if x.w == 1 else or_(x, y))
    def i_xor(self, st, f, ins, *_): self.binop(st, f, ins, lambda x, y: bxor(x, y) if x.w == 1 else xor(x, y))
    def i_udiv(self, st, f, ins, *_): self.binop(st, f, ins, udiv)
    def i_urem(self, st, f, ins, *_): self.binop(st, f, ins, urem)
    def nonneg(self, st, x): return st.facts.rng(x)[1] < 1 << (x.w - 1)
    def i_sdiv(self, st, f, ins, *_): self.binop(st, f, ins, lambda x, y: udiv(x, y) if self.nonneg(st, x) and self.nonneg(st, y) else sdiv(x, y))
    def i_srem(self, st, f, ins, *_): self.binop(st, f, ins, lambda x, y: urem(x, y) if self.nonneg(st, x) and self.nonneg(st, y) else srem(x, y))
    def shift(self, st, f, ins, fn, name):
        x, y = self.val(f, ins["a"][0]), self.val(f, ins["a"][1])
        y = self.simp(st, y)
        self.setr(f, ins, fn(x, y.a) if y.k == "c" else op(name, x.w, x, y))
    def i_shl(self, st, f, ins, *_): self.shift(st, f, ins, shl, "shl")
    def i_lshr(self, st, f, ins, *_): self.shift(st, f, ins, lshr, "lshr")
    def i_ashr(self, st, f, ins, *_):
        self.shift(st, f, ins, lambda x, k: lshr(x, k) if self.nonneg(st, x) else ashr(x, k), "ashrv")
    def i_zext(self, st, f, ins, *_): self.setr(f, ins, zext(self.val(f, ins["a"][0]), ins["t"]))
    def i_sext(self, st, f, ins, *_):
        x = self.val(f, ins["a"][0])
        self.setr(f, ins, zext(x, ins["t"]) if x.w > 1 and self.nonneg(st, x) else sext(x, ins["t"]))
    def i_trunc(self, st, f, ins, *_):
        x = self.val(f, ins["a"][0]); self.setr(f, ins, slc(x, 0, ins["t"]))
    def i_ptrtoint(self, st, f, ins, *_):
        x = self.val(f, ins["a"][0]); self.setr(f, ins, slc(x, 0, ins["t"]) if ins["t"] < 64 else x)
    def i_inttoptr(self, st, f, ins, *_):
        x = self.val(f, ins["a"][0]); self.mark_ptr(x); self.setr(f, ins, x)
    def i_bitcast(self, st, f, ins, *_): self.setr(f, ins, self.val(f, ins["a"][0]))
    def i_freeze(self, st, f, ins, *_): self.setr(f, ins, self.val(f, ins["a"][0]))
    def i_icmp(self, st, f, ins, *_):
        x, y = self.val(f, ins["a"][0]), self.val(f, ins["a"][1])
        t = icmp(ins["p"], x, y)
        if t.k != "c" and ins["p"] in ("eq", "ne") and x.w == 64:
            r = self.ptr_eq(st, x, y)
            if r is not None: t = B(r == (ins["p"] == "eq"))
        elif t.k != "c" and x.w == 64 and ins["p"][0] == "u":
            bx, by = self.pbase(x), self.pbase(y)
            if bx is not None and bx is by and bx in self.objs:
                a, b = sub(x, bx), sub(y, bx)
                if a.k == "c" and b.k == "c" and a.a < 1 << 61 and b.a < 1 << 61: t = icmp(ins["p"], a, b)
        self.setr(f, ins, t)
    def ptr_eq(self, st, x, y):
        """distinct concrete objects have distinct addresses; functions are not null"""
        fx = x.k == "s" and str(x.a).startswith("fn:"); fy = y.k == "s" and str(y.a).startswith("fn:")
        if fx and fy: return x is y
        if fx and y.k == "c" and y.a == 0 or fy and x.k == "c" and x.a == 0: return False
        def base(t):
            if t.k == "c": return None, t.a
            c, d = to_lin(t)
            bs = [z for z, g in d.items() if g == 1 and z in self.objs and self.objs[z].kind in ("alloca", "global", "heap", "buf")]
            if len(bs) == 1: return bs[0], c
            return 0, c
        bx, cx = base(x); by, cy = base(y)
        if bx and by is None and cy == 0: return False
        if by and bx is None and cx == 0: return False
        if bx and by and bx is not by: return False
        if bx and by == 0:
            o = self.objs[bx]
            if o.kind == "alloca" or o.kind == "heap":
                if y.k in ("s", "m") and y.ptr and not self.derived(st, y): return False
        if by and bx == 0: return self.ptr_eq(st, y, x)
        return None
    def derived(self, st, y):
        """may an initial-memory pointer denote a local object?  values that exist before the
        object was created cannot."""
        return y.k == "s" and "#" in str(y.a)
    def i_select(self, st, f, ins, stop):
        c = self.val(f, ins["a"][0])
        v = st.facts.val(c)
        if v is not None:
            self.setr(f, ins, self.val(f, ins["a"][1] if v else ins["a"][2])); return None
        x, y = self.val(f, ins["a"][1]), self.val(f, ins["a"][2])
        if isinstance(x, T) and x.w == 1: self.setr(f, ins, ite(c, x, y)); return None
        if x is y: self.setr(f, ins, x); return None
        if self.ite_ok(c, x, y): self.setr(f, ins, ite(c, x, y)); return None
        if isinstance(x, T) and x.k == "c" and y.k == "c" and x.w >= 16 and (x.a == 0 or y.a == 0) and self.databit(c):
            n = lnot(c)
            self.setr(f, ins, cat([(C(1, x.a >> i & 1) if not (x.a ^ y.a) >> i & 1 else c if x.a >> i & 1 else n) for i in range(x.w)])); return None
        out = []
        s2 = st.copy()
        if st.facts.assume(c, True): self.setr(st.frames[-1], ins, x); out.append(st)
        if s2.facts.assume(c, False): self.setr(s2.frames[-1], ins, y); out.append(s2)
        return out
    def databit(self, c):
        """a condition that is a bit (or parity of bits) of data rather than a comparison"""
        while c.k == "op" and c.a[0] == "not": c = c.a[1]
        return c.w == 1 and (c.k in ("cat", "m", "s") or c.k == "op" and c.a[0] == "xor")
    def ite_ok(self, c, x, y):
        """keep cheap data selects of one small byte as terms (character mapping)"""
        s = support(c)
        return len(s) == 1 and next(iter(s)).w <= 8 and x.w <= 64 and evaluable(x) and evaluable(y) and support(x) <= s and support(y) <= s
    def i_br(self, st, f, ins, stop):
        a = ins["a"]
        if len(a) == 1: return self.goto(st, a[0], stop)
        c = self.val(f, a[0])
        if a[1] == a[2]: return self.goto(st, a[1], stop)
        return self.branch(st, c, a[1], a[2], stop)
    def i_switch(self, st, f, ins, stop):
        a = ins["a"]
        x = self.val(f, a[0])
        loop = f.loops[-1] if f.loops else None
        live = []
        for cv, b in a[2:]:
            c = eq(x, C(int(cv[1]), int(cv[2])))
            v = st.facts.val(c)
            if v is True: return self.goto(st, b, stop)
            if v is None: live.append((c, b))
        if loop and loop.mode == "unroll" and live:
            body = f.fn.loops[loop.hdr]
            if len({b in body for _, b in live} | {a[1] in body}) > 1 and not loop.decided:
                return self.generalise(loop.snap, loop.hdr, stop)
        trs = [truth8(c) for c, _ in live]
        if live and all(trs) and len({t[0] for t in trs}) == 1 and 1 < trs[0][0].w <= 8:
            y = trs[0][0]; m = st.facts.dom.get(y)
            if m is None: p, q = st.facts.rng(y); m = ((1 << (q + 1)) - 1) & ~((1 << p) - 1)
            edges = []
            for t, (_, b) in zip(trs, live): edges.append((m & t[1], b)); m &= ~t[1]
            r = self.byte_chain(st, y, edges + [(m, a[1])], stop)
            if r is not None: return r
        out = []
        for c, b in live:
            s2 = st.copy()
            if s2.facts.assume(c, True): out += self.settle(s2, b, stop)
        ok = True
        for c, b in live:
            if not st.facts.assume(c, False): ok = False; break
        if ok: out += self.settle(st, a[1], stop)
        return out
    def i_unreachable(self, st, f, ins, stop):
        st.status = "unreach"; st.why = st.why or "unreachable"
        return []
    def i_ret(self, st, f, ins, stop):
        v = self.val(f, ins["a"][0]) if ins["a"] else None
        for b in f.allocas:
            s = st.mem[b]
            if s.alive: st.mem[b] = OS(s.cells, s.ver, False, s.syms, s.lazy, s.fill)
        if stop and any(c.tok in stop for c in f.loops if c.tok is not None): st.status = "cut"; return []
        st.frames.pop()
        if not st.frames:
            st.ret = v; st.status = "ret"; return []
        g = st.frames[-1]
        if f.retto is not None and v is not None: g.regs[f.retto] = v
        return None
    def i_extractvalue(self, st, f, ins, *_):
        v = self.val(f, ins["a"][0])
        for i in ins["a"][1]: v = v[i]
        self.setr(f, ins, v)
    def i_insertvalue(self, st, f, ins, *_):
        def put(agg, ix, v):
            if not ix: return v
            l = list(agg); l[ix[0]] = put(l[ix[0]], ix[1:], v); return tuple(l)
        self.setr(f, ins, put(self.val(f, ins["a"][0]), ins["a"][2], self.val(f, ins["a"][1])))
    def i_extractelement(self, st, f, ins, *_):
        v, i = self.val(f, ins["a"][0]), self.val(f, ins["a"][1])
        w = ins["t"] if isinstance(ins["t"], int) else self.bits(ins["t"])
        if isinstance(v, tuple): v = cat(list(v))
        self.setr(f, ins, slc(v, i.a * w, w))
    def i_insertelement(self, st, f, ins, *_):
        v, x, i = (self.val(f, z) for z in ins["a"])
        if isinstance(v, tuple): v = cat(list(v))
        w = x.w
        self.setr(f, ins, cat([slc(v, 0, i.a * w)] * (i.a > 0) + [x] + ([slc(v, (i.a + 1) * w, v.w - (i.a + 1) * w)] if (i.a + 1) * w < v.w else [])))
    def flop(self, st, f, ins, *_):
        xs = [self.val(f, z) for z in ins["a"]]
        self.setr(f, ins, op("f:" + ins["o"] + (":" + ins["p"] if "p" in ins else ""), self.bits(ins["t"]), *xs))
    i_fadd = i_fsub = i_fmul = i_fdiv = i_fneg = i_fcmp = i_fptosi = i_fptoui = i_sitofp = i_uitofp = i_fpext = i_fptrunc = flop

    def i_call(self, st, f, ins, stop):
        callee = ins["f"]
        if callee[0] == "g": name = callee[1]
        elif callee[0] == "asm": raise Unsupported("asm")
        else:
            t = self.val(f, callee)
            t = self.simp(st, t)
            if t.k == "s" and str(t.a).startswith("fn:"): name = t.a[3:]
            elif t.k == "m" and t.a[0].startswith("@") and isinstance(t.a[2], T):
                return self.split_table(st, f, ins, t, stop)
            else:
                args = [self.val(f, x) for x in ins["a"]]
                return self.opaque_call(st, f, ins, "indirect", "indirect call", args, [t])
        fn = self.m.fns[name]
        args = [self.val(f, x) for x in ins["a"]]
        if name.startswith("llvm."): return self.intrinsic(st, f, ins, name, args)
        for i, ao in enumerate(ins["aa"]):
            if "byval" in ao:
                o = self.new_obj(st, "byval", "alloca", ao["byval"])
                self.copy_mem(st, o.base, args[i], ao["byval"])
                args[i] = o.base
        h = self.model_for(name, fn.sim)
        if h is not None:
            r = h(self, st, f, ins, fn, args)
            if r is not NotImplemented: return r
        if fn.blocks:
            f.ip += 1
            self.push(st, fn, args, ins.get("d"), f.cid + (ins.get("d", f.ip),))
            return None
        return self.opaque_call(st, f, ins, name, fn.dem, args)
    def pick_entry(self, st, f, ins, t):
        """pointer to data read from a constant table: one state per entry the index may choose"""
        o = self.objs.get(S(64, t.a[0], True))
        if o is None or o.kind != "global" or not o.size or not o.g or not o.g["const"] or not o.g["rel"]: return None
        off = t.a[2]; lo, hi = st.facts.rng(off)
        if lo % 8 or hi + 8 > o.size or hi - lo > 8 * 64: return None
        out = []
        for k in range(lo, hi + 1, 8):
            v = self.global_bytes(o, k, 8)
            if v is None or v.k == "s" and str(v.a).startswith("fn:"): return None
            g = st.facts.copy()
            if not g.assume(eq(off, C(64, k)), True): continue
            s2 = st.copy(); s2.facts = g; f2 = s2.frames[-1]
            self.setr(f2, ins, v); out.append(s2)
        return out
    def split_table(self, st, f, ins, t, stop):
        """call through a constant table at a partitioned index"""
        o = self.objs[S(64, t.a[0], True)]
        off = t.a[2]
        out = []
        lo, hi = st.facts.rng(off)
        hi = min(hi, o.size - 8)
        for k in range(lo - lo % 8, hi + 1, 8):
            s2 = st.copy()
            if not s2.facts.assume(eq(off, C(64, k)), True): continue
            v = self.global_bytes(o, k, 8)
            if v is None: continue
            if ins["f"][0] == "r": s2.frames[-1].regs[ins["f"][1]] = v
            out.append(s2)
        if not out: st.status = "unreach"; st.why = "empty dispatch"
        return out

    def opaque_call(self, st, f, ins, name, dem, args, extra=(), pure=False, kind="call"):
        self.opaque[dem] = self.opaque.get(dem, 0) + 1
        mem = dict(st.mem)
        ret = None
        ty = ins.get("t")
        fn = self.m.fns.get(name)
        if ty is not None: ret = self.fresh_ty(ty, short(dem))
        ev = Ev(kind, dem, tuple(args), ret, mem, self.loc(st), self.chain(st), x=list(extra), facts=len(st.facts.lits))
        st.emit(ev)
        if not pure and not (fn and fn.mem in ("none", "read")):
            self.havoc_args(st, dem, fn, args, ins, short(dem))
        if ins.get("noret") or (fn and fn.noreturn):
            st.status = "abort"; st.why = dem; return []
        if ret is not None: f.regs[ins["d"]] = ret
        f.ip += 1
        return None
    def fresh_ty(self, ty, nm):
        if isinstance(ty, list) and ty[0] in ("S", ): return tuple(self.fresh_ty(x, nm) for x in ty[1])
        return self.fresh(self.bits(ty), nm, ty == "p")
    def havoc_args(self, st, dem, fn, args, ins, tag):
        ps = param_types(dem)
        off = 0
        if fn: 
            sret = [i for i, a in enumerate(fn.args) if "sret" in a]
        else: sret = [i for i, a in enumerate(ins.get("aa", [])) if "sret" in a]
        for i, a in enumerate(args):
            if not isinstance(a, T) or a.w != 64 or a.k == "c": continue
            fa = fn.args[i] if fn and i < len(fn.args) else {}
            if fn and fa.get("ty") != "p": continue
            if fa.get("ro"): continue
            try: o, k = self.resolve(a)
            except Unsupported: continue
            if o is None or o.base not in self.objs: continue
            if o.kind == "global" and o.g["const"]: continue
            if self.const_param(dem, i, sret, fn): continue
            n = fa.get("sret") or fa.get("deref")
            if k.k == "c" and n: self.havoc(st, o, tag, sgn(k.a, 64), n)
            elif k.k == "c" and o.kind in ("alloca", "heap") and o.size and sgn(k.a, 64) == 0: self.havoc(st, o, tag, 0, o.size)
            else: self.havoc(st, o, tag)
    def const_param(self, dem, i, sret, fn):
        """is parameter i a pointer/reference to const according to the signature?"""
        if i in sret: return False
        ps = param_types(dem)
        if ps is None: return False
        member_const = dem.rstrip().endswith("const") or " const [" in dem or dem.rstrip().endswith("const&")
        k = i - len([s for s in sret if s < i])
        n = (len(fn.args) if fn else 0) - len(sret)
        hasthis = n == len(ps) + 1
        if hasthis:
            if k == 0: return member_const
            k -= 1
        if k >= len(ps): return False
        p = ps[k].strip()
        return bool(re.search(r"\bconst\s*(&|\*|&&)\s*(const)?$", p)) or not re.search(r"[&*]", p)

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, st, f, ins, name, args):
        d = ins.get("d")
        def res(v): f.regs[d] = v; f.ip += 1
        n = name
        if n.startswith("llvm.lifetime.start"):
            o, _ = self.resolve(args[1])
            self.uniq += 1
            if o and o.kind == "alloca": st.mem[o.base] = OS({}, f"u{self.uniq}", True)
            f.ip += 1; return None
        if n.startswith("llvm.lifetime.end"):
            o, _ = self.resolve(args[1])
            if o and o.kind == "alloca":
                s = st.mem[o.base]; st.mem[o.base] = OS(s.cells, s.ver, False, s.syms, s.lazy, s.fill)
            f.ip += 1; return None
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            k = self.simp(st, args[2])
            if k.k == "c": self.copy_mem(st, args[0], args[1], k.a)
            else:
                st.emit(Ev("copy", "memcpy", (args[0], args[1], k), mem=dict(st.mem), loc=self.loc(st), chain=self.chain(st)))
                self.reads(st, args[0], k); self.reads(st, args[1], k)
                o, off = self.resolve(args[0])
                if o: self.havoc(st, o, "memcpy")
            f.ip += 1; return None
        if n.startswith("llvm.memset"):
            k = self.simp(st, args[2]); o, off = self.resolve(args[0])
            self.reads(st, args[0], k)
            if k.k == "c" and off.k == "c":
                s = self.os(st, o.base).clone(); b = sgn(off.a, 64)
                if o.size is not None and not (0 <= b and b + k.a <= o.size):
                    st.emit(Ev("oob", "store", (args[0], k), loc=self.loc(st), chain=self.chain(st), x=o))
                pos = 0
                while pos < k.a:
                    m = 8 if k.a - pos >= 8 and (b + pos) % 8 == 0 else 4 if k.a - pos >= 4 and (b + pos) % 4 == 0 else 1
                    self.put(s, b + pos, m, cat([args[1]] * m) if m > 1 else args[1]); pos += m
                st.mem[o.base] = s
            else:
                st.emit(Ev("fill", "memset", (args[0], args[1], k), loc=self.loc(st)))
                self.havoc(st, o, "memset")
            f.ip += 1; return None
        if n.startswith("llvm.bswap"): return res(bswap(args[0]))
        m = re.match(r"llvm\.(umin|umax|smin|smax)", n)
        if m:
            p = {"umin": ult(args[0], args[1]), "umax": ult(args[1], args[0]), "smin": slt(args[0], args[1]), "smax": slt(args[1], args[0])}[m[1]]
            return self.pick(st, f, ins, p, args[0], args[1])
        if n.startswith("llvm.abs"): return self.pick(st, f, ins, slt(args[0], C(args[0].w, 0)), neg(args[0]), args[0])
        if n.startswith("llvm.usub.sat"): return self.pick(st, f, ins, ult(args[0], args[1]), C(args[0].w, 0), sub(args[0], args[1]))
        if n.startswith("llvm.uadd.sat"):
            return self.pick(st, f, ins, ult(inv(args[1]), args[0]), C(args[0].w, -1), add(args[0], args[1]))
        if n.startswith("llvm.fshl") or n.startswith("llvm.fshr"):
            k = self.simp(st, args[2])
            if k.k == "c":
                w = args[0].w; s = k.a % w
                both = cat([args[1], args[0]])
                return res(slc(both, w - s, w) if "fshl" in n else slc(both, s, w))
            return res(op("fshl", args[0].w, *args))
        m = re.match(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow", n)
        if m:
            a, b = args; r = {"add": add, "sub": sub, "mul": mul}[m[2]](a, b)
            w = a.w
            if m[1] == "u":
                if m[2] == "add": ov = ult(r, a)
                elif m[2] == "sub": ov = ult(a, b)
                else:
                    if b.k == "c" and b.a: ov = ult(C(w, ((1 << w) - 1) // b.a), a)
                    elif a.k == "c" and a.a: ov = ult(C(w, ((1 << w) - 1) // a.a), b)
                    else: ov = op("umulo", 1, a, b)
            else: ov = op("s" + m[2] + "o", 1, a, b)
            return res((r, ov))
        if n.startswith("llvm.ctpop"): return res(op("ctpop", args[0].w, args[0]) if not isc(args[0]) else C(args[0].w, bin(args[0].a).count("1")))
        if n.startswith(("llvm.ctlz", "llvm.cttz")): return res(op(n.split(".")[1], args[0].w, args[0]))
        if n.startswith("llvm.assume"):
            if not st.facts.assume(args[0], True): st.status = "unreach"; st.why = "assume"; return []
            f.ip += 1; return None
        if n.startswith("llvm.expect"): return res(args[0])
        if n.startswith("llvm.objectsize"): return res(C(ins["t"], -1))
        if n.startswith("llvm.is.constant"): return res(C(1, 0))
        if n.startswith("llvm.launder") or n.startswith("llvm.strip"): return res(args[0])
        if n.startswith("llvm.trap"): st.status = "abort"; st.why = "trap"; return []
        if n.startswith(("llvm.dbg", "llvm.invariant", "llvm.donothing", "llvm.prefetch", "llvm.stackrestore")): f.ip += 1; return None
        if n.startswith("llvm.stacksave"): return res(self.fresh(64, "stack"))
        if n.startswith(("llvm.fmuladd", "llvm.fabs", "llvm.sqrt", "llvm.floor", "llvm.ceil", "llvm.round", "llvm.pow", "llvm.trunc")): return res(op("f:" + n, self.bits(ins["t"]), *args))
        if n.startswith("llvm.threadlocal.address"): return res(args[0])
        raise Unsupported(n)
    def pick(self, st, f, ins, p, x, y):
        v = st.facts.val(p)
        if v is not None: self.setr(f, ins, x if v else y); return None
        if x is y: self.setr(f, ins, x); return None
        s2 = st.copy(); out = []; lc = self.loc(st)
        if st.facts.assume(p, True): st.trail = (st.trail, (lc, p, True)); self.setr(st.frames[-1], ins, x); out.append(st)
        if s2.facts.assume(p, False): s2.trail = (s2.trail, (lc, p, False)); self.setr(s2.frames[-1], ins, y); out.append(s2)
        return out

    # ------------------------------------------------------------ loops
    def generalise(self, snap, hdr, stop):
        """widen the loop entered at `snap`; returns the states that leave it"""
        depth = len(snap.frames)
        fr0 = snap.frames[-1]
        fn = fr0.fn
        self.uniq += 1
        lid = f"{short(fn.dem)}:{hdr}#{self.uniq}"
        phis = []
        for ins in fn.blocks[hdr]:
            if ins["o"] != "phi": break
            ini = None
            for p, v in ins["a"]:
                if p == fr0.prev: ini = self.val(fr0, v)
            phis.append((ins["d"], ins, ini))
        mods = {}           # loc -> dict(kind)
        loc0 = None
        rounds = 0
        info = {}           # loc -> candidate description
        base_uniq = self.uniq
        while True:
            rounds += 1
            if rounds > 14: raise Unsupported(f"loop {lid} does not stabilise")
            H, tok, names, k, rec = self.header(snap, hdr, lid, phis, mods, info)
            save = self.paths
            outs = self.explore(H.copy(), stop | {tok})
            self.paths = save
            backs = [s for s in outs if s.status == "back" and len(s.frames) == depth and s.frames[-1].loops and s.frames[-1].loops[-1].tok is tok]
            changed = False
            # values at back edges
            vals = {}
            for b in backs:
                fb = b.frames[-1]
                for d, ins, ini in phis:
                    v = None
                    for p, pv in ins["a"]:
                        if p == fb.prev: v = self.val(fb, pv)
                    loc = ("phi", d)
                    vals.setdefault(loc, []).append((b, v))
                    if loc not in mods and v is not ini and not (isinstance(v, T) and isinstance(ini, T) and self.same(b, v, ini)):
                        mods[loc] = ini; changed = True
                for base, s in b.mem.items():
                    s0 = H.mem.get(base)
                    o = self.objs[base]
                    if s0 is None:
                        if o.kind != "sym" and o.kind != "global": continue
                        if not self.outer(base, base_uniq): continue
                        s0 = OS()
                    if s is s0: continue
                    if not s.alive and o.kind == "alloca": continue
                    if (base, "*") in mods: continue
                    if s.ver != s0.ver or s.syms != s0.syms or s.lazy != s0.lazy:
                        for l in [l for l in mods if l[0] is base]: del mods[l]; info.pop(l, None)
                        mods[(base, "*")] = None; changed = True; continue
                    for kk in set(s.cells) | set(s0.cells):
                        a, b2 = s.cells.get(kk), s0.cells.get(kk)
                        if a == b2: continue
                        if a and b2 and a[0] == b2[0]:
                            loc = (base, kk, a[0])
                            if loc in mods: continue
                            if self.same(b, a[1], b2[1]): continue
                            mods[loc] = self.load_c(snap, o, self.os(snap, base), kk, a[0]); changed = True
                        elif a and not b2:
                            loc = (base, kk, a[0])
                            if loc in mods: continue
                            ini = self.load_c(H, o, s0, kk, a[0])
                            if self.same(b, a[1], ini): continue
                            mods[loc] = self.load_c(snap, o, self.os(snap, base), kk, a[0]); changed = True
                        else:
                            for l in [l for l in mods if l[0] is base]: del mods[l]; info.pop(l, None)
                            mods[(base, "*")] = None; changed = True; break
            if changed:
                if DEBUG: print(lid, rounds, [str(l) for l in mods])
                continue
            # candidate refinement
            for b in backs:
                for loc in mods:
                    if loc[0] == "phi" or loc[1] == "*": continue
                    o = self.objs[loc[0]]
                    vals.setdefault(loc, []).append((b, self.load_c(b, o, b.mem.get(loc[0]) or OS(), loc[1], loc[2])))
            if self.refine(mods, info, vals, names, k, rec):
                if DEBUG: print(lid, rounds, "info", {str(k2): v for k2, v in info.items()})
                continue
            if self.trips(backs, info, k, base_uniq): continue
            if self.shifts(snap, backs, info, k, rec, base_uniq): continue
            if self.fillings(backs, info, k, mods, lid, base_uniq): continue
            break
        # final run
        H, tok, names, k, rec = self.header(snap, hdr, lid, phis, mods, info)
        rec.loc = self.loc(H) or f"{fn.file}"
        mark = Ev("loop", lid, x=rec, loc=rec.loc, chain=self.chain(H))
        H.emit(mark)
        outs = self.explore(H, stop)
        res = []
        for s in outs:
            if s.status == "back" and len(s.frames) == depth and s.frames[-1].loops and s.frames[-1].loops[-1].tok is tok:
                evs = []
                e = s.events
                while e and e[1] is not mark: evs.append(e[1]); e = e[0]
                fb = s.frames[-1]
                pv = {}
                for d, ins, ini in phis:
                    for p, v in ins["a"]:
                        if p == fb.prev: pv[("phi", d)] = self.val(fb, v)
                for loc in mods:
                    if loc[0] != "phi" and loc[1] != "*":
                        pv[loc] = self.load_c(s, self.objs[loc[0]], s.mem.get(loc[0]) or OS(), loc[1], loc[2])
                rec.segs.append({"evs": evs[::-1], "state": s, "vals": pv})
            else:
                # drop the generalised context when still marked (returned from inside)
                res.append(s)
        self.loops_seen[rec.loc] = self.loops_seen.get(rec.loc, 0) + 1
        return res

    def trips(self, backs, info, k, limit):
        """bounds k <= Q of the number of rounds, for a Q of the surroundings: true of 0, and kept by every round because
        each goes on only while k is not Q (or below Q); returns True when the set of bounds changed"""
        cur = None
        for b in backs:
            qs = set()
            for t, v in b.facts.lits.items():
                if t.k != "cmp" or k not in support(t): continue
                o, x, y = t.a
                if o == "eq" and not v:
                    if x.w != 64: continue
                    _, d = to_lin(x); _, e = to_lin(y)
                    D = sub(x, y); c, d = to_lin(D)
                    f = sgn(d.get(k, 0), 64)
                    if not f or abs(f) > 1 << 12: continue
                    r = [(z, sgn(g, 64)) for z, g in d.items() if z is not k]; c = sgn(c, 64)
                    if c % f or any(g % f for _, g in r): continue
                    q = C(64, -(c // f))
                    for z, g in r: q = add(q, mulc(z, -(g // f)))
                    if abs(f) > 1 and b.facts.rng(q)[1] > 1 << 50: continue
                elif o == "ult" and (x.k if v else y.k) == "c":
                    # Q' - f*k is at least f when a round goes on: f*(k+1) <= Q' in turn
                    l, z = (x.a + 1, y) if v else (y.a, x)
                    c, d = to_lin(z)
                    f = -sgn(d.get(k, 0), 64) if z.w == 64 else 0
                    if f <= 0 or f & (f - 1) or f > 1 << 12 or l < f: continue
                    q = lshr(add(z, mulc(k, f)), f.bit_length() - 1)
                    if k in support(q): continue
                elif o == "ult" and v:
                    if x is k: q = y
                    elif x.w < 64 and x is slc(k, 0, x.w): q = zext(y, 64)
                    else: continue
                else: continue
                if q.k != "c" and k not in support(q) and self.outer(q, limit): qs.add(q)
            cur = qs if cur is None else cur & qs
        cur = frozenset(cur or ())
        if "trip!" in info: return False
        if cur == info.get("trip", frozenset()): return False
        if "trip" in info and not info["trip"] <= cur: info["trip"] = frozenset(); info["trip!"] = True; return True
        info["trip"] = cur
        return True
    def shifts(self, snap, backs, info, k, rec, limit):
        """what every round establishes of its number (f*k + rest + c <= 0 for an f > 0 and a rest of the surroundings) held of the
        round before: f*(k-1) + rest + c <= 0 at the head of every round but the first, and of the first where the surroundings imply it"""
        def live(d, c):
            return all(b.facts.prove_le(dict(d), c) for b in backs)
        old = info.get("shift", ())
        new = tuple(q for q in old if live(*q))
        if len(new) != len(old): info["shift"] = new; info["shift!"] = True; return True
        if "shift!" in info or not backs or len(old) >= 6: return False
        head = {(tuple(sorted((x.uid, f) for x, f in d.items())), c) for d, c in rec.head.lin}
        for d, c in backs[0].facts.lin:
            f = d.get(k, 0)
            if f <= 0 or len(d) > 4: continue
            if (tuple(sorted((x.uid, g) for x, g in d.items())), c) in head: continue
            q = (tuple(sorted(d.items(), key=lambda p: p[0].uid)), c)
            if q in new or not all(x is k or self.outer(x, limit) for x in d): continue
            if not snap.facts.prove_le({x: g for x, g in d.items() if x is not k}, c - f): continue
            if live(*q): new += (q,)
        if new == old: return False
        info["shift"] = new
        return True
    def fillings(self, backs, info, k, mods, lid, limit):
        """objects of which every round writes the next element, a function of its number: round j < k has written element j"""
        again = False
        for loc in mods:
            if loc[0] == "phi" or loc[1] != "*": continue
            key = ("fill", loc[0])
            if info.get(key) == "failed": continue
            name = (self.objs[loc[0]].name, f"L{lid}")
            got = self.element(backs, loc[0], f"L{lid}", k, limit)
            if got == info.get(key): continue
            again = True
            if key in info: info[key] = "failed"; self.fills.pop(name, None)
            else: info[key] = got; self.fills[name] = got
        return again
    def element(self, backs, base, ver, k, limit):
        """(k, size, base, ((place, bytes, value), ..)): what a round writes, at size * k + base"""
        one = None
        for b in backs:
            s = b.mem.get(base)
            if s is None or s.cells or s.lazy or s.fill is not None or s.ver != ver or not s.syms or not s.alive: return None
            off = s.syms[0][0]; _, d = to_lin(off); c = sgn(d.get(k, 0), 64)
            if not 0 < c <= 64: return None
            start = sub(off, mulc(k, c)); out = []; seen = 0
            for so, n, v in s.syms:
                d = sub(so, off)
                if d.k != "c" or k in support(start) or not self.outer(start, limit): return None
                r = sgn(d.a, 64)
                if not 0 <= r or r + n > c or seen & ((1 << n) - 1) << r: return None
                seen |= ((1 << n) - 1) << r
                if not self.ofround(v, k, limit): return None
                out.append((r, n, v))
            got = (k, c, start, tuple(out))
            if one is not None and got != one: return None
            one = got
        return one
    def ofround(self, t, k, limit):
        """is t a function of the round k and the surroundings of the loop"""
        st = [t]
        while st:
            x = st.pop()
            if x is k or x.k == "c": continue
            if x.k == "m":
                if any(int(n) >= limit for n in re.findall(r"#(\d+)", str(x.a[:2]))): return False
                st += [y for y in x.a[2:] if isinstance(y, T)]
            elif x.k == "s":
                if any(int(n) >= limit for n in re.findall(r"#(\d+)", str(x.a))): return False
            else: st += tm.kids(x)
        return True
    def filled(self, st, name, ver, off, n):
        """an element written by an earlier round of a summarised loop"""
        q = self.fills.get((name, ver))
        if not q or st is None: return None
        k, c, start, parts = q
        c0, d = to_lin(sub(off, start)); c0 = sgn(c0, 64)
        if any(f % c for f in d.values()): return None
        r = c0 % c
        for at, m, v in parts:
            if at <= r and r + n <= at + m:
                j = C(64, (c0 - r) // c)
                for x, f in d.items(): j = add(j, mulc(x, sgn(f, 64) // c))
                if st.facts.val(ult(j, k)) is not True: return None
                return slc(tm.subst(v, {k: j}), 8 * (r - at), 8 * n)
        return None
    def outer(self, t, limit):
        """was this object base nameable before the loop numbered `limit` was widened"""
        st = [t]; seen = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.k in ("s", "m"):
                for n in re.findall(r"#(\d+)", str(x.a)):
                    if int(n) >= limit: return False
            elif x.k != "c":
                for y in tm.kids(x): st.append(y)
        return True

    def same(self, b, v, w):
        if v is w: return True
        if isinstance(v, tuple) or isinstance(w, tuple): return v == w
        return v.w == w.w and b.facts.val(eq(v, w)) is True

    def header(self, snap, hdr, lid, phis, mods, info):
        H = snap.copy()
        tok = object()
        f = H.frames[-1]
        rec = LoopRec(lid, f.fn.dem, "")
        k = S(64, f"k<{lid}>")
        GLOBAL_IV[k] = (0, 1 << 50)
        rec.k = k
        names = {}
        late = []
        for loc, ini in mods.items():
            if loc[0] == "phi":
                nm = f"{lid}.%{loc[1]}"
                w = ini.w if isinstance(ini, T) else None
                if w is None: raise Unsupported("aggregate loop value")
            elif loc[1] == "*":
                o = self.objs[loc[0]]
                s = self.os(H, loc[0])
                H.mem[loc[0]] = OS({}, f"L{lid}", s.alive)
                continue
            else:
                nm = f"{lid}.{self.objs[loc[0]].name}+{loc[1]}"; w = 8 * loc[2]
            t = self.widened(nm, w, ini, info.get(loc), k, late)
            names[loc] = t
            rec.locs[loc] = t; rec.entry[loc] = ini
            if loc[0] != "phi":
                s = self.os(H, loc[0]).clone(); self.put(s, loc[1], loc[2], t); H.mem[loc[0]] = s
        c = LoopCtx(); c.hdr = hdr; c.iters = 0; c.mode = "gen"; c.decided = False; c.tok = tok; c.forks = 0; c.snap = None
        if f.loops and f.loops[-1].hdr == hdr: f.loops.pop()
        f.loops.append(c)
        f.prev = f.prev; 
        for d, ins, ini in phis: f.regs[d] = names.get(("phi", d), ini)
        i = 0
        blk = f.fn.blocks[hdr]
        while blk[i]["o"] == "phi": i += 1
        f.ip = i
        for q in late: H.facts.assume(q, True)
        for q in info.get("trip", ()):
            if k.k == "s" and H.facts.val(ule(k, q)) is None: H.facts.assume(ule(k, q), True)
            if k.k == "s" and q.k == "cat" and len(q.a) == 2 and q.a[1][0] is None and not q.a[1][1]:
                # k <= x>>l: k<<l <= x; k <= x<l-1:0>: k <= x
                x, l, n = q.a[0]
                if x is not None and x.w == 64:
                    t = ule(mulc(k, 1 << l), x) if l + n == 64 else ule(q, x) if l == 0 else None
                    if t is not None and t.k != "c" and H.facts.val(t) is None: H.facts.assume(t, True)
        for d, c in info.get("shift", ()):
            d = dict(d)
            if not H.facts.prove_le(d, c - d[k]): H.facts.add_le(d, c - d[k])
        rec.head = H.facts.copy()
        return H, tok, names, k, rec

    def widened(self, nm, w, ini, inf, k, late):
        """fresh value for a modified location under its surviving candidates"""
        if inf is None: inf = {}
        if inf.get("step") is not None:
            c = inf["step"]
            kk = k if w == 64 else slc(k, 0, w)
            return add(ini, mulc(kk, c))
        if inf.get("mono"):
            sh = inf.get("sh", 0)
            x = S(64, nm + ".d")
            GLOBAL_IV[x] = (0, 1 << 61 >> sh)
            if w == 64:
                t = add(ini, shl(x, sh) if False else mulc(x, 1 << sh))
                return t
        if inf.get("base"):
            return add(inf["base"], S(64, nm + ".off"))
        h = inf.get("hi0", 0)
        if h: return zext(S(w - h, nm), w)
        p = isinstance(ini, T) and (ini.ptr or ini in self.objs) and w == 64
        t = S(w, nm, p)
        if p and t not in GLOBAL_IV: GLOBAL_IV[t] = (0, PMAX)
        return t

    def refine(self, mods, info, vals, names, k, rec):
        """try to give every widened location a stronger description; returns True when
        the header changed and the loop has to be re-analysed"""
        again = False
        for loc, ini in mods.items():
            if loc[1] == "*" and loc[0] != "phi": continue
            vs = vals.get(loc, [])
            if not vs or any(not isinstance(v, T) for _, v in vs): continue
            h = names[loc]
            inf = info.get(loc)
            w = h.w
            if inf is None:
                inf = {}
                steps = {sub(v, h) for _, v in vs}
                if len(steps) == 1 and next(iter(steps)).k == "c" and next(iter(steps)).a and w in (8, 16, 32, 64):
                    inf["step"] = sgn(next(iter(steps)).a, w)
                elif w == 64 and all(self.tz(s) is not None for s in steps) and not (ini.ptr and ini not in self.objs and not to_lin(ini)[1]):
                    inf["mono"] = True
                    inf["sh"] = min(min(self.tz(s), 8) for s in steps)
                    if not all(self.looks_nonneg(b, sub(v, h)) for b, v in vs): inf.pop("mono"); inf.pop("sh")
                if not inf:
                    h0 = min([hi0(ini)] + [hi0(v) for _, v in vs])
                    if h0 and h0 < w: inf["hi0"] = h0
                    elif w == 64:
                        pb = self.pbase(ini)
                        if pb is not None and all(self.pbase(v) is pb or self.pbase(v) is h for _, v in vs) and h.k == "s": inf["base"] = pb
                info[loc] = inf
                if inf: again = True
                continue
            # verify
            if inf.get("step") is not None:
                if any(v is not addc(h, inf["step"]) for _, v in vs):
                    info[loc] = {"failed": "step"}; again = True
            elif inf.get("mono"):
                ok = True
                for b, v in vs:
                    d = sub(v, ini)
                    st_ = sub(v, h)
                    if not self.looks_nonneg(b, st_): ok = False
                    lo, hi = b.facts.rng(d)
                    lim = (1 << 61)
                    if hi > lim and not self.bounded(b, v, ini, lim): ok = False
                    if (self.tz(st_) or 0) < inf["sh"]: ok = False
                if not ok: info[loc] = {"failed": "mono"}; again = True
            elif inf.get("hi0"):
                if any(hi0(v) < inf["hi0"] for _, v in vs): info[loc] = {"failed": "hi0"}; again = True
            elif inf.get("base"):
                if any(self.pbase(v) is not inf["base"] for _, v in vs): info[loc] = {"failed": "base"}; again = True
        return again
    def pbase(self, t):
        if t in self.objs or t.ptr: return t
        _, d = to_lin(t)
        bs = [x for x, f in d.items() if f == 1 and (x in self.objs or x.ptr)]
        return bs[0] if len(bs) == 1 else None
    def tz(self, s):
        c, d = to_lin(s)
        r = 64
        if c: r = (c & -c).bit_length() - 1
        for x, f in d.items():
            z = (f & -f).bit_length() - 1
            if x.k == "cat" and x.a[0][0] is None and x.a[0][1] == 0: z += x.a[0][2]
            r = min(r, z)
        return r
    def looks_nonneg(self, b, s):
        lo, hi = b.facts.rng(s)
        return hi <= 1 << 61
    def bounded(self, b, v, ini, lim):
        d = sub(v, ini)
        il = b.facts.intlin(d)
        if il and b.facts.prove_le(il[1], il[0] - lim): return True
        return False

def bxor(x, y):
    n = 0
    while x.k == "op" and x.a[0] == "not": x = x.a[1]; n ^= 1
    while y.k == "op" and y.a[0] == "not": y = y.a[1]; n ^= 1
    if n: return lnot(bxor(x, y))
    if x.k == "c": return lnot(y) if x.a else y
    if y.k == "c": return lnot(x) if y.a else x
    if x is y: return FALSE
    for p, q in ((x, y), (y, x)):
        if q.k == "op" and q.a[0] == "band":
            np = lnot(p); l = list(q.a[1:])
            if p in l: l.remove(p); return band(p, lnot(conj(l)))
            if np in l: l.remove(np); return bor(p, conj(l))
    a, b = sorted((x, y), key=lambda t: t.uid)
    return op("bxor", 1, a, b)
def conj(l):
    t = l[0]
    for x in l[1:]: t = band(t, x)
    return t

REPO = os.environ.get("FW_REPO", "/repo")

def short(dem):
    s = re.sub(r"\(.*", "", dem)
    d = 0; out = []
    for ch in s:
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        elif d == 0: out.append(ch)
    s = "".join(out)
    s = s.split(" ")[-1]
    return "::".join(s.split("::")[-2:])

_pt = {}
def param_types(dem):
    """parameter type strings of a demangled function name"""
    r = _pt.get(dem, 0)
    if r != 0: return r
    s = dem
    # the last top-level parenthesised group
    d = 0; end = None; start = None
    i = len(s) - 1
    while i >= 0:
        ch = s[i]
        if ch == ")" :
            if d == 0 and end is None: end = i
            d += 1
        elif ch == "(":
            d -= 1
            if d == 0 and end is not None:
                start = i; break
        i -= 1
    if start is None: r = None
    else:
        inner = s[start + 1:end]
        out = []; d = 0; cur = ""
        for ch in inner:
            if ch in "<([{": d += 1
            elif ch in ">)]}": d -= 1
            if ch == "," and d == 0: out.append(cur); cur = ""
            else: cur += ch
        if cur.strip(): out.append(cur)
        r = out
    if r: r = [x.strip() for x in r]
    _pt[dem] = r
    return r
