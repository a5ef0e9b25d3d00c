"""Common skeleton of the checks: record in a child process, validate with TLC, report, write evidence."""
import json, linecache, multiprocessing as mp, os, random, re, shutil, signal, sys, tempfile, time, traceback
import numpy as np
from . import build, tlc, enc, qp
VERIF = build.VERIF

class Violation(Exception):
    def __init__(self, what, case=None, detail=""):
        super().__init__(what); self.what, self.case, self.detail = what, case, detail

class Recorder:
    """Handed to the recording function in the child: put() complete cases, begin() names what is being run."""
    def __init__(self, path): self.out = enc.Out(path); self.mark = open(path + ".mark", "w"); self.states = 0
    def begin(self, what):
        self.mark.seek(0); self.mark.truncate(); self.mark.write(what if isinstance(what, str) else json.dumps(what)); self.mark.flush()
    def put(self, case, states): self.out.put(case); self.states += states

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.stages, self.told = [], [], [], []
        self.tmp = tempfile.mkdtemp(prefix="vt-%s-" % prop, dir="/tmp")
        self.attempt = 0
    def rng(self, salt=0): return np.random.default_rng([self.seed, salt, sum(map(ord, self.prop))])
    def n(self, quick, thorough): return quick if self.quick else thorough
    def lib(self): return qp.Lib(build.lib())

    # ---- model stage: TLC on a specification (design level)
    def model(self, module, cfg, env=None, timeout=600, args=(), expect=None, **kw):
        r = tlc.run(module, cfg, env, timeout=timeout, args=args, **kw)
        if r["violation"]:
            raise Violation("the specification %s violates its own property (%s)" % (module, cfg), None, r["out"][-4000:])
        if expect is not None and r["distinct"] < expect:
            raise tlc.TLCError("%s %s explored only %d states (expected at least %d)" % (module, cfg, r["distinct"], expect))
        self.states += r["distinct"]; self.transitions += r["states"]
        self.stages.append(dict(kind="model", module=module, config=cfg, distinct_states=r["distinct"], transitions=r["states"], wall_s=round(r["wall"], 2)))
        return r

    # ---- recording stage in a forked child
    def record(self, fn, name, timeout=None, env=None):
        path = os.path.join(self.tmp, "%s-%d.json" % (name, self.attempt))
        timeout = timeout or self.n(240, 2400)
        q = os.path.join(self.tmp, name + ".res")
        pid = os.fork()
        if pid == 0:
            rc = 70
            try:
                os.setpgid(0, 0)
                if env: os.environ.update(env)
                dn = os.open(os.path.join(self.tmp, name + ".stdout"), os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
                sys.stdout.flush(); os.dup2(dn, 1)
                r = Recorder(path); extra = fn(r); r.out.close()
                json.dump(dict(states=r.states, n=r.out.n, extra=extra), open(q, "w")); rc = 0
            except BaseException:
                with open(q + ".err", "w") as f: traceback.print_exc(file=f)
            finally:
                os._exit(rc)
        end = time.time() + timeout; st = None
        while time.time() < end:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p: break
            time.sleep(0.01); st = None
        if st is None:
            try: os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError: pass
            os.waitpid(pid, 0)
            raise Violation("the code under test did not return within %d s" % timeout, self._mark(path), "stage " + name)
        if os.WIFSIGNALED(st):
            raise Violation("the code under test died with signal %d" % os.WTERMSIG(st), self._mark(path), "stage " + name)
        if os.WEXITSTATUS(st) != 0:
            if os.WEXITSTATUS(st) != 70: raise Violation("the code under test ended its process with status %d" % os.WEXITSTATUS(st), self._mark(path), "stage " + name)
            raise RuntimeError("recorder failed:\n" + open(q + ".err").read())
        d = json.load(open(q)); d["path"] = path
        return d
    def _mark(self, path):
        try: return open(path + ".mark").read()
        except OSError: return None

    # ---- validation stage: TLC on recorded cases
    def validate(self, module, rec, env=None, cfg="NoBad.cfg", timeout=None, what=None, count=True, sample=1):
        if rec["n"] == 0: raise RuntimeError("nothing recorded for " + module)
        r = None
        for path in self._chunks(rec["path"]):
            e = dict(CASES=path, WANT=self.prop); e.update(env or {})
            try:
                x = tlc.run(module, cfg, e, timeout=timeout or self.n(600, 3000))
            except tlc.TLCError as x:
                if re.search(r"TLC failed \(exit 7[567]\)", str(x)):
                    raise Violation("a recorded observation is outside the domain of the specification %s" % module, None, str(x))
                raise
            if x["violation"]:
                s = tlc.last_state(x["out"]); m = re.search(r"/\\ c = (\d+)", s); b = re.search(r"/\\ bad = (\{.*?\})\s*(/\\|$)", s, re.S)
                case = linecache.getline(path, int(m.group(1))) if m else None
                raise Violation("trace rejected by %s: %s" % (module, re.sub(r"\s+", " ", b.group(1)) if b else s[-600:]), case, s[:6000])
            if r: r.update({k: r[k] + x[k] for k in ("distinct", "states", "wall")}, out=x["out"])
            else: r = x
        if r["distinct"] != rec["states"]:
            raise Violation("trace not consumed by %s: %d states, %d expected" % (module, r["distinct"], rec["states"]), None, r["out"][-2000:])
        self.states += r["distinct"]; self.transitions += r["states"]
        if count: self.traces += rec["n"]
        self.stages.append(dict(kind="trace validation", module=module, what=what or "", traces=rec["n"], states=r["distinct"], wall_s=round(r["wall"], 2)))
        if sample:
            for i in range(1, min(sample, rec["n"]) + 1): self.samples.append(self._short(linecache.getline(rec["path"], 1 + (i * 7) % rec["n"])))
        return r
    @staticmethod
    def _chunks(path, top=40 << 20):
        """The recording in pieces that fit TLC's heap."""
        if os.path.getsize(path) <= top: return [path]
        out, f, size = [], None, top
        for line in open(path):
            if size + len(line) > top:
                if f: f.close()
                out.append("%s.%d" % (path, len(out))); f = open(out[-1], "w"); size = 0
            f.write(line); size += len(line)
        f.close(); return out
    @staticmethod
    def _short(line):
        try: d = json.loads(line)
        except ValueError: return line[:300]
        def cut(x, depth=0):
            if isinstance(x, dict): return {k: cut(v, depth + 1) for k, v in list(x.items())[:14]}
            if isinstance(x, list):
                if len(x) == 2 and all(isinstance(v, int) for v in x): 
                    try: return enc.undo(x)
                    except Exception: return x
                return [cut(v, depth + 1) for v in x[:4]] + (["... %d in all" % len(x)] if len(x) > 4 else [])
            return x
        return cut(d)
    def both(self, module, fn, name=None, **kw):
        name = name or module
        return self.validate(module, self.record(fn, name, timeout=kw.pop("rec_timeout", None), env=kw.pop("rec_env", None)), **kw)

def report(ctx, v):
    d = os.path.join(VERIF, "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.txt" % (ctx.prop, os.getpid()))
    with open(p, "w") as f:
        f.write("property %s  seed %d  tier %s\n%s\n\n" % (ctx.prop, ctx.seed, ctx.tier, v.what))
        if v.detail: f.write(v.detail + "\n\n")
        if v.case: f.write("CASE\n" + (v.case if isinstance(v.case, str) else json.dumps(v.case)) + "\n")
    return p

def known():
    k = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m: k.append((m.group(1), m.group(2)))
    except OSError: pass
    return k

def main(prop, fn):
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed); viol = None
    try:
        try:
            for att in (0, 1):
                ctx.attempt = att
                ctx.states = ctx.transitions = ctx.traces = 0; ctx.samples, ctx.stages = [], []
                linecache.clearcache()
                try:
                    fn(ctx); viol = None; break
                except Violation as v:
                    viol = v
                    if att == 0: print("candidate violation, repeating the run: " + v.what, flush=True)
        except build.BuildError as e:
            print("ERROR: cannot build the tree under test\n" + str(e)); return 2
        except Exception:
            traceback.print_exc(); print("ERROR: %s gives no answer" % prop); return 2
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - ctx.t0, 2), violations=0 if viol is None else 1,
                  coverage=dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces, samples=ctx.samples[:6] or [viol.what if viol else "none"], stages=ctx.stages, notes=ctx.notes),
                  assumptions=["IEEE-754 double arithmetic as evaluated by the JVM (vt.IEEE)", "TLC, the CommunityModules Json reader and the recorder in /verif/vt are trusted"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", prop + ".json")
        json.dump(ev, open(p + ".tmp%d" % os.getpid(), "w"), indent=1); os.replace(p + ".tmp%d" % os.getpid(), p)
        for kp, txt in known():
            if kp == prop: print("KNOWN-FINDING: property=%s %s" % (prop, txt))
        if viol is not None:
            rp = report(ctx, viol)
            print(viol.what)
            print("VIOLATION property=%s replay=%s" % (prop, rp)); return 1
        print("%s: held on %d traces, %d states, %.1f s" % (prop, ctx.traces, ctx.states, time.time() - ctx.t0)); return 0
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
