import os, re
from .common import *
from fw import build, constness
from fw.spec import Broken
META = dict(
 title='No hidden state, clock, randomness or I/O: callers see only what they pass in',
 statement='Apart from the clock adaptor, whose state belongs to one thread, no operation of the library changes memory that is shared between calls or objects (globals, function-local statics, thread-locals) after its initialisation; a function-local static does not take its value from the call that happened to create it; no operation reads a clock, a random source, the environment or any input, or writes any output, other than through the objects and callables its caller passed in; and an operation on a const object leaves the object as it is. Two threads working on their own objects, or reading the same one, therefore cannot influence each other, and the same call on the same data gives the same result.',
 text='every function of the library compiled from src/ and node/openssl, including every template the analysis instantiates; every path of it, every call history and every schedule of threads using separate objects or sharing const ones',
 over=['histories', 'schedules', 'programs'],
 why='a test cannot tell a pure function from one that remembers: leaked state shows only on a particular earlier call, interleaving or clock value',
 files=['src/stun/stun_message.cpp', 'src/stun/stun_client_udp.cpp', 'src/stun/stun_server_stateless.cpp', 'src/stun/details/stun_fingerprint.cpp', 'src/util/util_hash_murmur.cpp', 'src/util/util_hash_dynamic.hpp', 'src/net/net_fqdn.cpp', 'src/rtp/rtp_packet.cpp', 'src/ice/candidate/ice_candidate_sdp.cpp', 'node/openssl/node_openssl_hash.cpp', 'src/clock/clock_std.hpp'],
 mechanism=[('error category and hasher singletons', 'src/util/util_hash_dynamic.hpp'), ('CRC table', 'src/stun/details/stun_fingerprint.cpp'), ('caller supplied time and randomness', 'src/stun/stun_client_udp.hpp'), ('per-thread clock', 'src/clock/clock_std.hpp')],
 technique='static analysis: interprocedural effect analysis of the LLVM IR of every translation unit (writes through pointers derived from globals, initialiser regions of local statics, references to external functions), and an AST query for writes to mutable members and casts that drop const',
 note='whole library; pointers kept in memory the analysis cannot follow and callables passed in by the caller are outside')
LEVEL = 'other'
EXPLANATION = 'Effect analysis of the optimised IR of every translation unit: each use of each mutable global is classified (read, initialised, written), each external reference made by library code directly or through standard-library code is compared with the sources of nondeterminism and I/O, and the AST of every source and header is searched for const objects being changed.'
CLOCK = ("src/clock/",)
DENY = re.compile("|".join([
    r"^(time|clock|clock_gettime|clock_getres|gettimeofday|times|ftime|timespec_get|localtime(_r)?|gmtime(_r)?|mktime|strftime|nanosleep|clock_nanosleep|usleep|sleep|alarm|setitimer|timer_\w+)$",
    r"^(rand|srand|rand_r|random|srandom|[djlmen]rand48|srand48|arc4random\w*|getrandom|getentropy|RAND_\w+)$",
    r"^(read|write|pread|pwrite|readv|writev|send|sendto|sendmsg|recv|recvfrom|recvmsg|socket|bind|connect|listen|accept4?|select|poll|epoll_\w+|open(64|at)?|creat|close|pipe2?|mmap(64)?|ioctl|fcntl(64)?|stat|fstat|unlink|rename|mkdir)$",
    r"^(fopen(64)?|freopen|fdopen|fclose|fread|fwrite|fflush|fgets|fgetc|getc|getchar|fputs|fputc|putc|puts|putchar|printf|fprintf|vprintf|vfprintf|dprintf|scanf|fscanf|perror|syslog|__printf_chk|__fprintf_chk|__vfprintf_chk|stdin|stdout|stderr|getline)$",
    r"^(getenv|secure_getenv|setenv|putenv|unsetenv|environ|setlocale|getpid|getppid|gettid|pthread_self|gethostname|gethostby\w+|getaddrinfo|getifaddrs|uname|sysconf|system|popen|exec\w+|fork|vfork|posix_spawn\w*|kill|raise|signal|sigaction|pthread_create|dlopen|dlsym|strtok|rdtsc)$",
    r"^std::chrono::\S*::now\(", r"^std::random_device::", r"^std::thread::", r"^std::this_thread::", r"^std::(w?cin|w?cout|w?cerr|w?clog)$", r"^std::(basic_)?(if|of|f)stream", r"^std::basic_filebuf", r"^std::__basic_file", r"^std::filesystem::", r"^std::ios_base::Init", r"^std::locale::global", r"std::__throw_system_error",
]))
# the system_error path of std::thread and std::mutex is not an effect by itself
DENY_EXC = re.compile(r"^std::__throw_system_error")
def rel(l): return l[len(build.REPO) + 1:] if l.startswith(build.REPO + "/") else l
def run(c):
    try: recs = build.effects()
    except build.BuildError as e: raise Broken(f"the analysed program does not build: {e}")
    fns, nins, nglob, names, per = set(), 0, set(), {}, {}
    R1 = "no operation changes state shared between calls"
    R2 = "a local static does not depend on the call that created it"
    R3 = "no operation reads a clock or random source or does I/O"
    R4 = "an operation on a const object leaves it unchanged"
    R5 = "the state of the clock adaptor belongs to one thread"
    for src, r in recs:
        ent = src.startswith(build.VERIF)
        fns |= set(r["functions"]); nins += r["instructions"]
        def repo(g): return not ent or "freewebrtc::" in g["name" if "name" in g else "global"]
        bad = {}
        for w in r["writes"]:
            if rel(w["loc"]).startswith(CLOCK) and "freewebrtc::clock" in w["global"]: per[w["global"]] = w
            if rel(w["loc"]).startswith(CLOCK) or w["global"].startswith("std::") or w["external"] and not "freewebrtc" in w["global"] and ent or not repo(w): continue
            bad.setdefault(w["global"], w)
        for g in r["globals"]:
            if g["name"].startswith("std::") or not repo(g): continue
            nglob.add(g["name"])
            w = bad.get(g["name"])
            c.ob(R1, w is None, rel(w["loc"]) if w else rel(src), w["fn"] if w else g["name"], w and f"{g['name']}: {w['fn']} {w['what']}", key=f"{R1}|{g['name']}|{w['fn']}" if w else None)
        done = set()
        for w in r["inits"]:
            if rel(w["loc"]).startswith(CLOCK) or not repo(w) or w["global"] in done: continue
            done.add(w["global"])
            c.ob(R2, False, rel(w["loc"]), w["fn"], f"{w['global']} is initialised from values of the call that first reaches it", key=f"{R2}|{w['global']}")
        for x in r["externals"]:
            if rel(x["loc"]).startswith(CLOCK): continue
            names.setdefault(x["name"], (rel(x["loc"]), x["fn"]))
    c.ob(R2, True, "library", "library")
    for g, w in sorted(per.items()): c.ob(R5, w["tls"], rel(w["loc"]), w["fn"], f"{g} is shared by all threads: {w['fn']} {w['what']}", key=f"{R5}|{g}")
    if not per: raise Broken("the state of the clock adaptor was not seen")
    for n, (l, f) in sorted(names.items()):
        ok = not DENY.search(n) or DENY_EXC.search(n)
        c.ob(R3, bool(ok), l, f, f"{f} refers to {n}", key=f"{R3}|{n}|{f}")
    if len(fns) < 300 or nins < 5000 or not nglob: raise Broken(f"effect analysis saw only {len(fns)} functions, {nins} instructions, {len(nglob)} globals")
    jobs, rs = constness.run()
    ms, unread = set(), []
    for (src, _), r in zip(jobs, rs):
        if r is None:
            unread.append(src)
            if not os.path.basename(src).startswith("hdr."): raise Broken(f"{src} could not be parsed")
            continue
        ms |= set(r[0])
        for loc, fn, what in r[1]: c.ob(R4, False, rel(loc), fn, what, key=f"{R4}|{fn}|{what}")
    for m in sorted(ms): c.ob(R4, True, rel(m), "const member functions")
    if len(ms) < 100: raise Broken(f"only {len(ms)} const member functions seen")
    if len(unread) > 12: raise Broken(f"{len(unread)} headers could not be parsed")
    c.functions |= {rel(m) for m in ms}
    c.samples = [{"functions": len(fns), "instructions": nins, "mutable globals": sorted(nglob), "external references": sorted(names)[:120]}]
    c.notes.append(f"{len(fns)} functions, {nins} instructions, {len(nglob)} mutable globals, {len(names)} external symbols, {len(ms)} const member functions; headers not self-contained: {len(unread)}")
