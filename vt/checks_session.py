"""C15 (options and printing) and C19 (repeated solves): histories of one object."""
import ctypes, json, os, re, tempfile
import numpy as np
from . import gen, rec, qp, enc
from .checks_blocks import emitted
from .checks_run import run_traces, fails
libc = ctypes.CDLL(None)
NUM = r"([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))"
R_IT = re.compile(r"It:\s*(-?\d+).*?pcost\s*:\s*" + NUM + r".*?rx\s*:\s*" + NUM + r".*?ry\s*:\s*" + NUM + r".*?rz\s*:\s*" + NUM + r".*?mu\s*:\s*" + NUM)
R_STEP = re.compile(r"Primal Step Size\s*:\s*" + NUM + r".*?Dual Step Size\s*:\s*" + NUM)
R_COUNT = re.compile(r"Iterations\s*:\s*(\d+)")

class Capture:
    """File descriptor 1 during one call."""
    def __enter__(self):
        libc.fflush(None); self.f = tempfile.TemporaryFile(); self.old = os.dup(1); os.dup2(self.f.fileno(), 1); return self
    def __exit__(self, *a):
        libc.fflush(None); os.dup2(self.old, 1); os.close(self.old); self.f.seek(0); self.text = self.f.read().decode("latin1"); self.f.close()
def parse(t):
    d = dict(bytes=len(t), its=[], steps=[], order=[], status=[], count=[])
    for line in t.splitlines():
        m = R_IT.search(line)
        if m: d["its"].append(dict(it=int(m.group(1)), **{k: enc.d(float(v)) for k, v in zip(("cost", "rx", "ry", "rz", "mu"), m.groups()[1:])})); d["order"].append("it"); continue
        m = R_STEP.search(line)
        if m: d["steps"].append(dict(ap=enc.d(float(m.group(1))), ad=enc.d(float(m.group(2))))); d["order"].append("step"); continue
        for word, s in (("Optimal Solution Found", "Optimal"), ("Maximum Iterations reached", "Maximum-Iterations"), ("Unknown Error", "Fatal"), ("Factorization fail", "KKT")):
            if word in line: d["status"].append(s); d["order"].append("status")
        m = R_COUNT.search(line)
        if m: d["count"].append(int(m.group(1)))
    return d
def oenc(op): return dict(maxit=int(max(-2**31, min(2**31 - 1, op["maxit"]))), verbose=int(max(-2**31, min(2**31 - 1, op["verbose"]))), reltol=enc.d(op["reltol"]), abstol=enc.d(op["abstol"]), sigma=enc.d(op["sigma"]), sigmad=enc.d(op["sigma_d"]))

class Session:
    """The object under observation and its twin (run one iteration at a time, silently)."""
    def __init__(self, lib, q, fmt="sparse", perm=None, sigma_d=0.0, rng=None, twin=True):
        sd = sigma_d if fmt == "sparse" else 0.0
        with Capture() as cap: self.o = qp.Obj(lib, q, fmt=fmt, perm=perm, sigma_d=sd)
        self.t = qp.Obj(lib, q, fmt=fmt, perm=perm, sigma_d=sd) if twin else None
        self.q = q; self.r = rng
        self.evs = [dict(op="setup", w=enc.w(*self.o.vecs()), opt=oenc(self.o.opts()), iter=self.o.stats()["iter"], given=[enc.d(sd)] if fmt == "sparse" else [], bytes=len(cap.text))]
        self.verb = 0
    def opt(self, **kw):
        self.o.setopt(**kw); kw.pop("verbose", None)
        if self.t: self.t.setopt(**kw)
        self.evs.append(dict(op="opt", opt=oenc(self.o.opts())))
    def data(self, c=None, h=None, b=None):
        for o in (self.o, self.t):
            if o is None: continue
            for a, v in ((o.c, c), (o.h, h), (o.b, b)):
                if v is not None and len(v): a[:] = v
        self.evs.append(dict(op="data", c=enc.v(self.o.c), h=enc.v(self.o.h), b=enc.v(self.o.b[:self.q.p])))
    def step(self):
        sg = self.t.opts(); self.t.setopt(reltol=0.0, abstol=0.0, maxit=1, verbose=0)
        self.t.solve(); s = self.t.stats(); r = dict(w=enc.w(*self.t.vecs()), sg=enc.d(self.t.opts()["sigma"]), ap=enc.d(s["ap"]), ad=enc.d(s["ad"]))
        self.t.setopt(reltol=sg["reltol"], abstol=sg["abstol"], maxit=sg["maxit"]); return r
    def solve(self, limit, traj=None):
        o = self.o; it0 = o.stats()["iter"]; o.setopt(maxit=limit)
        with Capture() as cap: code = o.solve()
        s = o.stats(); made = s["iter"] - it0
        steps = [self.step() for _ in range(min(max(made, 0), limit))] if traj is None else traj[:max(0, min(made, len(traj)))]
        self.evs.append(dict(op="solve", limit=limit, code=int(code), flag=s["flag"], iter=s["iter"], w=enc.w(*o.vecs()), sg=enc.d(o.opts()["sigma"]), steps=steps, lines=parse(cap.text),
                             fval=enc.d(s["fval"]), nrx=enc.d(s["nrx"]), nry=enc.d(s["nry"]), nrz=enc.d(s["nrz"]), nmu=enc.d(s["nmu"])))
    def close(self, id):
        self.o.cleanup(); self.t and self.t.cleanup()
        return dict(id=id, name=self.q.name, prob=enc.prob(self.q), evs=self.evs)

def play(S, hist, r):
    q = S.q
    for h in hist:
        a = h["do"]
        if a == "solve": S.solve(h["limit"])
        elif a == "tight": S.opt(reltol=1e-9, abstol=1e-9)
        elif a == "loose": S.opt(reltol=1e-1, abstol=1e-2)
        elif a == "standard": S.opt(reltol=1e-6, abstol=1e-6)
        elif a == "verbose": S.verb = 0 if S.verb else (1, 2, -1)[len(S.evs) % 3]; S.opt(verbose=S.verb)
        elif a == "sigma": S.opt(sigma=float(r.choice([100.0, 1.0, 0.0, 1e-3])))
        elif a == "sigmad": S.opt(sigma_d=float(r.choice([0.0, 1e-4, 0.05, 0.3])))
        elif a == "c": S.data(c=q.c * float(r.choice([1.0, -1.0])) + r.normal(size=q.n) * float(r.choice([1e-9, 1e-2, 1.0])))
        elif a == "h": S.data(h=q.h + r.random(q.m) * float(r.choice([1e-9, 1e-2, 1.0])))
        elif a == "b": S.data(b=q.b + r.normal(size=q.p) * float(r.choice([1e-9, 1e-2])) if q.p else None)
        elif a == "restore": S.data(c=q.c, h=q.h, b=q.b if q.p else None)

def small(r, k, big=0): return [q for q in gen.special() + gen.suite(r, k, 4, big) if q.n + q.m + q.p <= 16]

def histories(ctx, depth, num):
    """All short histories, and long ones from random walks of the model."""
    out = [d["hist"] for d in emitted(ctx, "SessionModel", "SessionModel.cfg", dict(DEPTH="2"))]
    seen = {json.dumps(h): h for h in out}
    pre = {}
    r = ctx.model("SessionModel", "SessionModel.cfg", dict(DEPTH=str(depth)), args=("-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(ctx.seed)))
    for l in r["out"].splitlines():
        if l.startswith('"CASE '): h = json.loads(json.loads(l)[5:])["hist"]; pre.setdefault(json.dumps(h[:-1]), {})[json.dumps(h)] = h
    g = ctx.rng(9)
    for k in sorted(pre): h = pre[k][sorted(pre[k])[int(g.integers(len(pre[k])))]]; seen[json.dumps(h)] = h
    return [seen[k] for k in sorted(seen)]

def C19(ctx):
    lib = ctx.lib(); r = ctx.rng(); ps = small(r, ctx.n(80, 400)); hs = histories(ctx, 7, ctx.n(150, 3000))
    def go(R):
        for i, h in enumerate(hs):
            q = ps[i % len(ps)]; R.begin("%s after %s" % (q.name, json.dumps(h)))
            S = Session(lib, q, fmt=("sparse", "row", "col")[i % 3], perm=r.permutation(q.n + q.m + q.p) if i % 2 else None, sigma_d=float(r.choice([0, 0, 1e-3])))
            play(S, h, r); S.solve(100)
            if i % 3 == 0: S.solve(100)
            if i % 4 == 0: S.data(c=q.c, h=q.h, b=q.b if q.p else None); S.solve(60); S.opt(reltol=1e-8, abstol=1e-8); S.solve(2); S.solve(60)
            c = S.close(str(i)); R.put(c, len(c["evs"]) + 1)
        for i, q in enumerate(gen.sweep(r, ctx.n(60, 600), 6, 136) + gen.giants(r, ctx.n(12, 60))):
            R.begin("solves of " + q.name); S = Session(lib, q, fmt=("sparse", "row", "col")[i % 3], perm=r.permutation(q.n + q.m + q.p) if i % 5 == 0 else None)
            S.solve(100); S.data(c=q.c + r.normal(size=q.n) * 1e-2, h=q.h + r.random(q.m) * float(r.choice([0.0, 1e-2]))); S.solve(int(r.choice([2, 100]))); S.data(c=q.c, h=q.h, b=q.b if q.p and i % 2 else None); S.solve(100)
            c = S.close("size%d" % i); R.put(c, len(c["evs"]) + 1)
        for i in range(ctx.n(9, 60)):                                   # long lives; larger problems
            q = ps[int(r.integers(len(ps)))] if i % 3 else gen.sweep(r, 4, 20, 60)[i // 3 % 4]; R.begin("long life of " + q.name); S = Session(lib, q, fmt=("sparse", "row", "col")[i % 3], perm=r.permutation(q.n + q.m + q.p) if i % 2 else None)
            for k in range(ctx.n(40, 150)):
                if k % 5 == 4: S.data(c=q.c, h=q.h)
                else: S.data(c=q.c + r.normal(size=q.n) * float(r.choice([1e-3, 0.3])), h=q.h + r.random(q.m) * float(r.choice([0.0, 1e-2, 1.0])))
                S.solve(int(r.choice([1, 2, 3, 100, 100])))
            c = S.close("long%d" % i); R.put(c, len(c["evs"]) + 1)
    ctx.both("SessionTrace", go, what="histories of solves, option changes and data changes")

def C15(ctx):
    lib = ctx.lib(); r = ctx.rng(); ps = gen.special() + gen.suite(r, ctx.n(90, 900), 5, ctx.n(4, 40))
    def go(R):
        for i, q in enumerate(ps):
            fmt = ("sparse", "row", "col")[i % 3]; perm = r.permutation(q.n + q.m + q.p) if i % 2 else None
            sd = float(r.choice([0, 0, 1e-3, 0.1])) if fmt == "sparse" else 0.0
            R.begin(q.name)
            # the trajectory, one iteration at a time with a test that never holds
            for sgm in (None, float(r.choice([1e-4, 0.5, 2.0]))) if i % 3 == 0 else (None,):
                T = Session(lib, q, fmt, perm, sd); sg = {} if sgm is None else dict(sigma=sgm)
                T.t.setopt(**sg); traj = [T.step() for _ in range(20)]; T.close("t")
                for v in range(ctx.n(4, 10)):
                    S = Session(lib, q, fmt, perm, sd, twin=False); lim = 20 if v % 3 else int(r.integers(0, 15))
                    o = dict(reltol=10.0 ** r.uniform(-9, 1), abstol=10.0 ** r.uniform(-9, 1)) if v else {}
                    S.opt(verbose=int((1, 0, 2, -1, 7, 256, 2**31, -256, 2**32, 2**40 + 2**31, -2**31, 2**53)[(v + i) % 5 if i % 4 else (v + i // 4) % 12]), **o, **sg)
                    R.begin("%s %s" % (q.name, o))
                    S.solve(lim, traj); c = S.close("%d-%d" % (i, v)); R.put(c, len(c["evs"]) + 1)
        for i, q in enumerate(gen.giants(r, ctx.n(8, 40))):
            R.begin(q.name); fmt = ("sparse", "row", "col")[i % 3]; T = Session(lib, q, fmt); traj = [T.step() for _ in range(12)]; T.close("t")
            for v in range(2):
                S = Session(lib, q, fmt, twin=False); S.opt(verbose=1 - v, reltol=10.0 ** r.uniform(-7, -1), abstol=10.0 ** r.uniform(-7, -1)); S.solve(12, traj); c = S.close("g%d-%d" % (i, v)); R.put(c, len(c["evs"]) + 1)
    ctx.both("SessionTrace", go, what="stopping points along one trajectory, printed output")
    # sigma and sigma_d select the step rule: the directions actually taken
    run_traces(ctx, ctx.n(150, 2000), ctx.n(6, 60), salt=3, sweep=ctx.n(60, 600), uneven=ctx.n(30, 400)); fails(ctx, ctx.n(90, 1000))
    hs = histories(ctx, 5, ctx.n(40, 600)); ps2 = small(r, 40)
    def go2(R):
        for i, h in enumerate(hs):
            q = ps2[i % len(ps2)]; R.begin("%s after %s" % (q.name, json.dumps(h)))
            S = Session(lib, q, fmt=("sparse", "row", "col")[i % 3]); S.opt(verbose=(1, 0, 3)[i % 3]); S.verb = 1
            play(S, h, r); S.solve(100); c = S.close(str(i)); R.put(c, len(c["evs"]) + 1)
    ctx.both("SessionTrace", go2, name="hist", what="printing over histories")
