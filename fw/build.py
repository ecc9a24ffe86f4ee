"""Build the analysed program: every library source of /repo's working tree plus the
analysis entry points of /verif/entry, as one optimised IR module dumped to JSON."""
import os, sys, json, hashlib, subprocess, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FW_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang++"
FLAGS = ["-std=gnu++20", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-DFW_ANALYSIS",
         "-fno-exceptions", "-fno-delete-null-pointer-checks", "-fwrapv", "-fno-strict-aliasing",
         "-fno-threadsafe-statics", "-w"]
# files of the source tree that are part of no build target and do not compile
STALE = {"util/util_binary_view.cpp", "util/util_error.cpp"}

TOPS = ("src", "node/openssl")

class BuildError(Exception): pass

def sources():
    out = []
    for top in TOPS:
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".cc", ".cxx")):
                    p = os.path.join(d, f)
                    if os.path.relpath(p, os.path.join(REPO, "src")) not in STALE: out.append(p)
    return out

def scratch():
    d = os.environ.get("FW_SCRATCH") or os.path.join(tempfile.gettempdir(), f"fwcheck.{os.getuid()}")
    os.makedirs(d, exist_ok=True)
    return d

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise BuildError(" ".join(cmd[:3]) + " ... failed:\n" + r.stdout[-3000:])
    return r.stdout

def tool(name="fwir"):
    src = os.path.join(VERIF, "tool", name + ".cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = scratch()
    exe = os.path.join(d, f"{name}.{h}")
    if not os.path.exists(exe):
        cxx = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        ld = subprocess.check_output(["llvm-config-18", "--ldflags"], text=True).split()
        cxx = [x for x in cxx if not x.startswith("-std=")]
        tmp = exe + f".{os.getpid()}"
        sh(["g++", "-O1", "-std=c++17", src] + cxx + ["-fno-rtti"] + ld + ["-lLLVM-18", "-o", tmp])
        os.replace(tmp, exe)
    return exe

FAILED = []          # sources that did not compile: (path, message)

_hash = {}
def fhash(p):
    try: k = os.stat(p); k = (p, k.st_mtime_ns, k.st_size, k.st_ino)
    except OSError: return "-"
    h = _hash.get(k)
    if h is None: h = _hash[k] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return h
def names(variant):
    """the set of files that an include could find"""
    out = []
    for top in [os.path.join(REPO, t) for t in TOPS] + [os.path.join(VERIF, "model"), os.path.join(VERIF, "entry")]:
        for d, ds, fs in os.walk(top): out += [os.path.join(d, f) for f in fs if not f.endswith(".cpp")]
    return hashlib.sha256("\n".join(sorted(out)).encode()).hexdigest()
def _compile(src, d, ent, variant, base):
    """path of the IR of a source; compiled again only when a file it reads has changed"""
    me = hashlib.sha256(f"{src}|{ent}|{variant}|{FLAGS}|{base}|{REPO}".encode()).hexdigest()[:20]
    dep = os.path.join(d, f"dep.{me}")
    def key():
        fs = [src] + open(dep).read().split("\n") if os.path.exists(dep) else None
        return fs and os.path.join(d, "ll." + me + "." + hashlib.sha256("|".join(f"{f}:{fhash(f)}" for f in fs if f).encode()).hexdigest()[:24] + ".ll")
    out = key()
    if out and os.path.exists(out): return out
    tmp = os.path.join(d, f"tmp.{me}.{os.getpid()}")
    sh([CLANG] + FLAGS + (["-fno-access-control"] if ent else []) + ([f"-I{VERIF}/model/std{variant}"] if variant else []) + [f"-I{REPO}/src", f"-I{VERIF}/model", f"-I{VERIF}/entry", "-S", "-emit-llvm", "-MD", "-MF", tmp + ".d", src, "-o", tmp])
    t = open(tmp + ".d").read().replace("\\\n", " ")
    fs = sorted({os.path.abspath(x) for x in t.split(":", 1)[1].split()})
    open(tmp + ".d", "w").write("\n".join(fs)); os.replace(tmp + ".d", dep)
    out = key()
    os.replace(tmp, out)
    return out

def module(entries=None, entry_files=None, keep="keep.txt", variant=""):
    """path of the JSON dump for the current tree"""
    base = names(variant)
    opaque = f"opaque_{variant}.txt" if variant else "opaque.txt"
    d = scratch()
    srcs = sources()
    if not srcs: raise BuildError("no sources found")
    ed = os.path.join(VERIF, "entry")
    ents = [os.path.join(ed, f) for f in sorted(os.listdir(ed)) if f.endswith(".cpp") and (entry_files is None or f in entry_files)]
    if entry_files is not None and len(ents) != len(entry_files): raise BuildError(f"entry files missing: {entry_files}")
    h = hashlib.sha256(base.encode())
    for f in (keep, opaque): h.update(open(os.path.join(VERIF, "cfg", f), "rb").read())
    h.update(open(os.path.join(VERIF, "tool", "fwir.cpp"), "rb").read()); h.update(repr(entries).encode())
    jobs = [(s, False) for s in srcs] + [(e, True) for e in ents]
    def one(j):
        s, ent = j
        try: return _compile(s, d, ent, variant, base)
        except BuildError as e: return (s, ent, str(e))
    with ThreadPoolExecutor(9) as ex:
        tf = ex.submit(tool)
        lls = list(ex.map(one, jobs))
        exe = tf.result()
    del FAILED[:]
    for r in lls:
        if isinstance(r, tuple):
            if r[1]: raise BuildError(r[2])
            FAILED.append((r[0], r[2]))
    h.update("|".join(x for x in lls if isinstance(x, str)).encode())
    out = os.path.join(d, f"mod.{h.hexdigest()[:24]}.json")
    if os.path.exists(out): return out
    tmp = f"{out}.{os.getpid()}.tmp"
    cmd = [exe, tmp, "--opaque", os.path.join(VERIF, "cfg", opaque), "--keep", os.path.join(VERIF, "cfg", keep)]
    for e in entries or (): cmd += ["--entry", e]
    sh(cmd + ["--"] + [x for x in lls if isinstance(x, str)], env=dict(os.environ, FWIR_LL=os.environ["FW_KEEPLL"]) if os.environ.get("FW_KEEPLL") else None)
    os.replace(tmp, out)
    return out

def effects():
    """(source, effects record) of every translation unit: library sources and analysis entries"""
    base = names(""); d = scratch(); exe = tool("fweff")
    ed = os.path.join(VERIF, "entry")
    jobs = [(s, False) for s in sources()] + [(os.path.join(ed, f), True) for f in sorted(os.listdir(ed)) if f.endswith(".cpp")]
    roots = [os.path.join(REPO, t) for t in TOPS]
    def one(j):
        s, ent = j
        ll = _compile(s, d, ent, "", base)
        out = os.path.join(d, "eff." + os.path.basename(exe) + "." + os.path.basename(ll)[3:-3] + ".json")
        if not os.path.exists(out):
            tmp = f"{out}.{os.getpid()}"
            sh([exe, ll, tmp] + roots); os.replace(tmp, out)
        return s, json.load(open(out))
    with ThreadPoolExecutor(9) as ex: return list(ex.map(one, jobs))

def load(**kw):
    from .engine import Module
    return Module(json.load(open(module(**kw))))
