"""Objects that must not change under const operations: an AST query (libclang) for
writes to `mutable` members in const member functions and for casts that drop const
from an object of the library."""
import ctypes as ct, os, subprocess, hashlib
from concurrent.futures import ProcessPoolExecutor
from . import build

LIB = "/usr/lib/llvm-18/lib/libclang-18.so.1"
class Str(ct.Structure): _fields_ = [("data", ct.c_void_p), ("flags", ct.c_uint)]
class Cur(ct.Structure): _fields_ = [("kind", ct.c_int), ("x", ct.c_int), ("d", ct.c_void_p * 3)]
class Typ(ct.Structure): _fields_ = [("kind", ct.c_int), ("d", ct.c_void_p * 2)]
class Loc(ct.Structure): _fields_ = [("p", ct.c_void_p * 2), ("i", ct.c_uint)]
VIS = ct.CFUNCTYPE(ct.c_int, Cur, Cur, ct.c_void_p)
def lib():
    L = ct.CDLL(LIB)
    def f(n, r, *a): g = getattr(L, n); g.restype = r; g.argtypes = a
    f("clang_createIndex", ct.c_void_p, ct.c_int, ct.c_int)
    f("clang_parseTranslationUnit", ct.c_void_p, ct.c_void_p, ct.c_char_p, ct.POINTER(ct.c_char_p), ct.c_int, ct.c_void_p, ct.c_uint, ct.c_uint)
    f("clang_getTranslationUnitCursor", Cur, ct.c_void_p)
    f("clang_getNumDiagnostics", ct.c_uint, ct.c_void_p)
    f("clang_getDiagnostic", ct.c_void_p, ct.c_void_p, ct.c_uint)
    f("clang_getDiagnosticSeverity", ct.c_int, ct.c_void_p)
    f("clang_visitChildren", ct.c_uint, Cur, VIS, ct.c_void_p)
    f("clang_getCursorLocation", Loc, Cur)
    f("clang_getExpansionLocation", None, Loc, ct.POINTER(ct.c_void_p), ct.POINTER(ct.c_uint), ct.POINTER(ct.c_uint), ct.POINTER(ct.c_uint))
    f("clang_getFileName", Str, ct.c_void_p)
    f("clang_getCString", ct.c_char_p, Str)
    f("clang_disposeString", None, Str)
    f("clang_getCursorSpelling", Str, Cur)
    f("clang_getCursorDisplayName", Str, Cur)
    f("clang_getTypeSpelling", Str, Typ)
    f("clang_getCursorReferenced", Cur, Cur)
    f("clang_getCursorSemanticParent", Cur, Cur)
    f("clang_CXXField_isMutable", ct.c_uint, Cur)
    f("clang_CXXMethod_isConst", ct.c_uint, Cur)
    f("clang_getCursorType", Typ, Cur)
    f("clang_getPointeeType", Typ, Typ)
    f("clang_getCanonicalType", Typ, Typ)
    f("clang_getNonReferenceType", Typ, Typ)
    f("clang_isConstQualifiedType", ct.c_uint, Typ)
    return L
KIND_METHOD, KIND_CONV, KIND_FNTPL, KIND_FIELD, KIND_NS = 21, 26, 30, 6, 22
KIND_UNEXP, KIND_MEMBERREF, KIND_CSTYLE, KIND_CONSTCAST, KIND_CALL = 100, 102, 117, 127, 103
FUNCS = {8, 21, 24, 25, 26, 30}
def scan(job):
    """(methods examined, [(file:line, function, what)]) of one translation unit"""
    src, roots = job
    L = lib()
    def s(x):
        r = L.clang_getCString(x); r = r.decode(errors="replace") if r else ""
        L.clang_disposeString(x); return r
    args = [a.encode() for a in ["-std=gnu++20", "-DFW_ANALYSIS", "-w", f"-I{build.REPO}/src", f"-I{build.VERIF}/model", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]]
    arr = (ct.c_char_p * len(args))(*args)
    idx = L.clang_createIndex(0, 0)
    tu = L.clang_parseTranslationUnit(idx, src.encode(), arr, len(args), None, 0, 0)
    if not tu: return None
    for i in range(L.clang_getNumDiagnostics(tu)):
        if L.clang_getDiagnosticSeverity(L.clang_getDiagnostic(tu, i)) >= 3: return None
    out, methods = set(), set()
    files = {}
    def where(c):
        f, l = ct.c_void_p(), ct.c_uint()
        L.clang_getExpansionLocation(L.clang_getCursorLocation(c), ct.byref(f), ct.byref(l), None, None)
        if not f.value: return "", 0
        if f.value not in files: files[f.value] = os.path.realpath(s(L.clang_getFileName(f)))
        return files[f.value], l.value
    def const(t):
        """whether what a pointer or reference type leads to is const"""
        t = L.clang_getCanonicalType(t)
        p = L.clang_getPointeeType(t)
        return bool(L.clang_isConstQualifiedType(p if p.kind else t))
    def qual(c):
        out = []
        while c.kind not in (0, 350) and len(out) < 8:
            n = s(L.clang_getCursorSpelling(c))
            if n: out.append(n)
            c = L.clang_getCursorSemanticParent(c)
        return "::".join(out[::-1])
    def kids(c):
        r = []
        def cb(x, p, d): r.append(Cur.from_buffer_copy(x)); return 1
        f = VIS(cb); L.clang_visitChildren(c, f, None); return r
    def walk(c, fn, cm, chain):
        k = c.kind
        if k in FUNCS:
            w = where(c)
            cm = bool(L.clang_CXXMethod_isConst(c)); fn = c
            if cm and w[0].startswith(roots): methods.add(f"{w[0]}:{w[1]}")
        if k == KIND_MEMBERREF and cm:
            r = L.clang_getCursorReferenced(c)
            if r.kind == KIND_FIELD and L.clang_CXXField_isMutable(r) and not read(c, chain):
                w = where(c)
                if w[0].startswith(roots): out.add((f"{w[0]}:{w[1]}", qual(fn), f"changes the member {s(L.clang_getCursorSpelling(r))} of a const object"))
        if k in (KIND_CSTYLE, KIND_CONSTCAST):
            ks = kids(c)
            if ks:
                a, b = L.clang_getCursorType(ks[-1]), L.clang_getCursorType(c)
                na = s(L.clang_getTypeSpelling(L.clang_getCanonicalType(a)))
                if const(a) and not const(b) and (k == KIND_CONSTCAST or L.clang_getPointeeType(L.clang_getCanonicalType(b)).kind) and "freewebrtc::" in na:
                    w = where(c)
                    if w[0].startswith(roots): out.add((f"{w[0]}:{w[1]}", qual(fn) if fn else "", f"casts const away from {na}"))
        for x in kids(c): walk(x, fn, cm, chain + [c])
    def read(c, chain):
        """the member is only read: its value is loaded, or it is seen as const"""
        p = chain[-1] if chain else None
        if p is None: return False
        if p.kind == KIND_UNEXP: return True if L.clang_isConstQualifiedType(L.clang_getCursorType(p)) else L.clang_getCursorType(p).kind not in (105, 1) and L.clang_getCursorType(p).kind < 101 or read(p, chain[:-1])
        if p.kind == KIND_MEMBERREF:
            r = L.clang_getCursorReferenced(p)
            return bool(L.clang_CXXMethod_isConst(r)) if r.kind in (KIND_METHOD, KIND_CONV) else read(p, chain[:-1])
        return False
    def top(c):
        for x in kids(c):
            w = where(x)
            if w[0].startswith(roots): walk(x, None, False, [])
    top(L.clang_getTranslationUnitCursor(tu))
    return sorted(methods), sorted(out)
def run():
    d = build.scratch()
    roots = tuple(os.path.realpath(os.path.join(build.REPO, t)) + "/" for t in build.TOPS)
    hs = []
    for r in roots:
        for dd, ds, fs in os.walk(r): hs += [os.path.join(dd, f) for f in sorted(fs) if f.endswith((".hpp", ".h"))]
    jobs = [(s, roots) for s in build.sources()]
    # headers nothing includes are examined one by one, so that one that needs a missing library does not hide the rest
    for h in sorted(hs):
        p = os.path.join(d, "hdr." + hashlib.sha256(h.encode()).hexdigest()[:16] + ".cpp")
        if not os.path.exists(p): open(p, "w").write(f'#include "{h}"\n')
        jobs.append((p, roots))
    with ProcessPoolExecutor(8) as ex: rs = list(ex.map(scan, jobs, chunksize=2))
    return jobs, rs
