"""Check framework: runs the analysis for one property, collects obligations, decides
the exit status and writes the evidence file."""
import os, sys, json, time, re, traceback
from . import build, engine
from .engine import *
from .terms import *
from .facts import Facts, GLOBAL_IV
from .stdmodel import MODELS, snap_obj, field
from .prove import HARNESS, decide, within

VERIF = build.VERIF
class Broken(Exception): pass
BUDGET = int(os.environ.get("FW_BUDGET", "600"))     # seconds for the exploration of one check

class Ctx:
    def __init__(self, pid, tier="quick"):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.obl = {}            # rule -> [total, discharged]
        self.where = {}          # rule -> set of places
        self.viol = {}           # key -> (loc, func, rule, detail, trail)
        self.notes = []
        self.functions = set(); self.paths = 0; self.loops = {}; self.opaque = {}; self.entries = {}
        self.samples = []
        self.cut = None          # why an exploration that found violations was not finished
        self._mod = {}
        self.assumptions = []
        self.sizes = {}
        self.orders = False
        self.bytesyms = False
        self.statics = False     # run the initialisers of function-local statics where first reached
        self.bounds = False      # accesses at computed places of objects of known size are obligations too
        self.variant = ""        # "ref": containers replaced by reference implementations
    # ------------------------------------------------------------ program
    def mod(self, files=None):
        k = (tuple(files) if files is not None else None, self.variant)
        if k not in self._mod:
            try: self._mod[k] = build.load(entry_files=files, variant=self.variant)
            except build.BuildError as e: raise Broken(f"the analysed program does not build: {e}")
            if build.FAILED: raise Broken("library sources that do not compile: " + "; ".join(f"{p}: {m[-300:]}" for p, m in build.FAILED)[:1500])
        return self._mod[k]
    def engine(self, files=None, **kw):
        models = MODELS if not self.variant else [m for m in MODELS if not any(w in m[0] for w in ("std::vector", "unordered_map", "std::function", "priority_queue|queue"))]
        E = Engine(self.mod(files), HARNESS + models, **kw)
        E.sizes = dict(self.sizes); E.proves = []; E.orders = self.orders; E.bytesyms = self.bytesyms; E.statics = self.statics
        E.dying = self.variant == "ref"
        if self.bounds: E.extents = {}; E.within = within
        return E
    def state(self):
        st = State(); st.frames = []; st.mem = {}; st.facts = Facts(); st.events = None; st.nalloc = 0
        st.ret = None; st.status = None; st.why = ""; st.trail = None
        return st
    def run(self, E, name, setup=None, stub=None):
        """explore an entry with symbolic inputs a0, a1, ...; returns (args, outcomes)"""
        fn = E.m.fns.get(name)
        if fn is None or not fn.blocks: raise Broken(f"analysis entry {name} missing")
        st = self.state(); args = []
        for i, a in enumerate(fn.args):
            if a["ty"] == "p": args.append(E.sym_obj(st, f"a{i}", a.get("sret") or a.get("deref")))
            else: args.append(S(E.bits(a["ty"]), f"a{i}"))
        if setup: setup(E, st, args)
        E.push(st, fn, args, None, ("top",))
        n0 = E.paths
        E.failing = lambda o: any(not e.x["ok"] for e in flat(o.evs()) if e.kind == "prove"); E.depth = 0
        E.deadline = self.t0 + BUDGET
        try: outs = E.explore(st)
        except (Unsupported, Budget) as e:
            # what the finished paths violate is violated, whatever the rest would show
            outs = [o for o in E.top_out if o.status not in ("unreach",) and E.failing(o)]
            if not outs: raise Broken(f"{name}: analysis gave up: {e}")
            self.cut = f"{name}: {e}"
        except (KeyError, AssertionError, TypeError, AttributeError, IndexError, ValueError) as e:
            raise Broken(f"{name}: analysis error: {e!r} at {traceback.extract_tb(sys.exc_info()[2])[-1]}")
        outs = [o for o in outs if o.status not in ("unreach",)]
        self.paths += len(outs); self.entries[name] = self.entries.get(name, 0) + len(outs)
        pre = build.REPO + "/"
        for ins in E.lines.values():
            for l in ins["lc"]:
                if l.startswith(pre): self.functions.add(":".join(l[len(pre):].split(":")[:2]))
        for k, v in E.loops_seen.items(): self.loops[k] = self.loops.get(k, 0) + v
        return args, outs
    # ------------------------------------------------------------ verdicts
    def ob(self, rule, ok, loc="", func="", detail="", key=None, trail=None):
        t = self.obl.setdefault(rule, [0, 0]); t[0] += 1
        self.where.setdefault(rule, set()).add(loc or func)
        if ok: t[1] += 1; return True
        key = key or f"{rule}|{func}"
        if key not in self.viol: self.viol[key] = (loc, func, rule, detail, self.trail(trail))
        return False
    def trail(self, tr):
        out = []
        while tr:
            l, c, v = tr[1]; out.append(f"{l}: {show(c)[:160]} = {v}"); tr = tr[0]
        return out[::-1][-30:]
    def harness(self, name, subject, files, rules=None, E=None, setup=None, abort_ok=(), key=None, allow_empty=False):
        """explore a fw_prove harness; every rule must be reached and hold on every path"""
        if E is None: E = self.engine(files)
        E.proves.clear()
        args, outs = self.run(E, name, setup)
        if not outs: raise Broken(f"{name}: no abstract path")
        seen = {}
        for o in outs:
            for e in flat(o.evs()):
                if e.kind == "prove":
                    seen.setdefault(e.name, 0); seen[e.name] += 1
                    self.ob(e.name, e.x["ok"], self.where_of(e, o), subject, f"{subject}: {show(e.args[0])[:300]} not established", key=f"{e.name}|{subject}" + (f"|{key}" if key else ""), trail=e.x["trail"])
                elif e.kind == "require":
                    self.ob(e.x.get("rule", "reads of a view stay within it"), e.x["ok"], e.loc, subject, f"{subject}: {show(e.args[2])[:80]} bytes at {show(e.args[1])[:80]} of a view of {show(e.args[0])[:80]} bytes", key=f"bounds|{subject}|{e.loc}", trail=e.x["trail"])
                elif e.kind in ("null", "dead", "oob"):
                    self.ob("memory", False, e.loc, subject, f"{e.kind} {e.name} {e.args}", key=f"memory|{subject}|{e.kind}", trail=o.trail)
            if o.status == "abort":
                last = [e for e in flat(o.evs()) if e.kind == "abort"]
                lc = last[-1].loc if last else ""
                if not any(re.search(r, " ".join(last[-1].chain) if last else "") for r in abort_ok):
                    self.ob("no-abort", False, lc, subject, f"{subject} can abort (unwrap of an absent value): {o.why}", trail=o.trail)
            elif o.status not in ("ret", None): raise Broken(f"{name}: path ended with {o.status} {o.why}")
        for r in rules or ():
            if r not in seen: raise Broken(f"{name}: rule '{r}' was never reached")
        if not seen and not allow_empty: raise Broken(f"{name}: no obligation reached")
        return E, outs
    def all(self, files, subjects, optional=(), aborts=(), **kw):
        """every harness entry of the given files; every rule they state must be reached"""
        m = self.mod(files)
        names, rules = [], set()
        for f in files:
            src = open(os.path.join(VERIF, "entry", f)).read()
            rules |= set(re.findall(r'fw_prove\("([^"]+)"', src))
        names = [n for n in m.fns if n.startswith("fw_e_") and not n.startswith("fw_e_k_") and m.fns[n].blocks]
        if not names: raise Broken(f"no analysis entries in {files}")
        broken = []
        inst = [n for n in names if n.startswith("fw_e_inst_")]
        for n in names:
            if n in inst: continue
            sub = subjects if isinstance(subjects, str) else next((v for k, v in subjects.items() if re.match("fw_e_" + k, n)), next(iter(subjects.values())))
            ok = [""] if any(re.match("fw_e_" + a, n) for a in aborts) else ()
            if self.viol and time.time() - self.t0 > 40: raise Broken("the remaining entries were not analysed")
            mine = [x for x in inst if x.startswith("fw_e_inst_" + n[5:] + "_")]
            if mine:
                if self.general(n, sub, files, ok, kw): continue
                self.notes.append(f"{n}: not established for all lengths at once on this tree, decided for {len(mine)} lengths instead: {', '.join(mine)}")
            for x in mine or [n]:
                E = self.engine(files)
                if mine: E.unroll = 70000
                try: self.harness(x, sub, files, key=x[5:], allow_empty=True, abort_ok=ok, E=E, **kw)
                except Broken as e: broken.append(str(e))
        if self.cut: broken.append(self.cut)
        if broken: raise Broken("; ".join(broken)[:1500])
        miss = sorted(r for r in rules if r not in self.obl and r not in optional)
        if miss: raise Broken(f"rules never reached: {miss[:8]}")
    def general(self, n, sub, files, ok, kw):
        """a rule for all lengths at once: it counts where it is established; where the reasoning about loops does not
        reach that far (the code may be right all the same), the instances of the rule decide"""
        keep = [{k: list(v) for k, v in self.obl.items()}, {k: set(v) for k, v in self.where.items()}, dict(self.viol), set(self.functions), self.paths, dict(self.loops), dict(self.entries), self.cut]
        try:
            self.harness(n, sub, files, key=n[5:], allow_empty=True, abort_ok=ok, **kw)
            if len(self.viol) == len(keep[2]) and self.cut == keep[7]: return True
        except Broken: pass
        self.obl, self.where, self.viol, self.functions, self.paths, self.loops, self.entries, self.cut = keep
        return False
    def where_of(self, e, o):
        """the construct responsible: the last repository location on the path"""
        t = o.trail
        tr = e.x["trail"]
        while tr:
            if tr[1][0].startswith(("src/", "node/")): return tr[1][0]
            tr = tr[0]
        return e.loc
    # ------------------------------------------------------------ result
    def finish(self, level, explanation, assumptions=()):
        known = {}
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if not l: continue
                j = json.loads(l)
                if j.get("property") == self.pid and j.get("status") == "known": known[j["key"]] = j["what"]
        ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
        new = []
        for k, v in sorted(self.viol.items()):
            if k in known: print(f"KNOWN-FINDING: property={self.pid} {known[k]}")
            else: new.append((k, v))
        total = sum(t[0] for t in self.obl.values()); dis = sum(t[1] for t in self.obl.values())
        rep = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
            "coverage": {"explanation": explanation, "obligations": total, "discharged": dis,
                         "checker_cmd": f"python3 /verif/check.py {self.pid}",
                         "trusted_base": ["clang 18 front end (IR generation)", "fwir inliner/dumper", "fw abstract interpreter and its library contracts", "craftpp stand-in headers"],
                         "source_lines_analysed": len(self.functions), "source_files": sorted({f.split(":")[0] for f in self.functions}), "paths": self.paths, "widened_loops": len(self.loops),
                         "rules": {r: {"instances": t[0], "held": t[1], "places": len(self.where[r])} for r, t in sorted(self.obl.items())},
                         "entries": self.entries, "loop_sample": sorted(self.loops)[:40], "samples": self.samples[:20]},
            "assumptions": list(assumptions) + self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": [{"key": k, "where": v[0], "function": v[1], "rule": v[2], "detail": v[3]} for k, v in new],
        }
        json.dump(rep, open(os.path.join(ev, f"{self.pid}.json"), "w"), indent=1)
        if os.environ.get("FW_LINES"):
            open(os.path.join(os.environ["FW_LINES"], self.pid), "w").write("\n".join(sorted(self.functions)))
            a = set(); pre = build.REPO + "/"
            for m in self._mod.values():
                for f in m.fns.values():
                    for b in f.blocks or ():
                        for i in b:
                            for l in i.get("lc") or ():
                                if l.startswith(pre): a.add(":".join(l[len(pre):].split(":")[:2]))
            open(os.path.join(os.environ["FW_LINES"], self.pid + ".all"), "w").write("\n".join(sorted(a)))
        print(f"{self.pid}: {dis}/{total} obligations, {len(self.obl)} rules, {len(self.functions)} source lines, {self.paths} paths, {len(self.loops)} widened loops, {rep['wall_s']} s")
        for r, t in sorted(self.obl.items()): print(f"  {t[1]}/{t[0]:<5} {r}")
        for n in self.notes: print("  note:", n[:300])
        if total == 0: raise Broken("no obligation was generated")
        if not new: return 0
        rd = os.path.join(ev, "replay"); os.makedirs(rd, exist_ok=True)
        for i, (k, v) in enumerate(new):
            rp = os.path.join(rd, f"{self.pid}-{i}.json")
            json.dump({"property": self.pid, "key": k, "where": v[0], "function": v[1], "rule": v[2], "detail": v[3], "path": v[4], "rerun": f"python3 /verif/check.py {self.pid}"}, open(rp, "w"), indent=1)
            print(f"{v[0]}: in {v[1]}: rule {v[2]} violated: {v[3]}")
            for l in v[4][-12:]: print("    ", l)
            print(f"VIOLATION property={self.pid} replay={rp}")
        return 1
