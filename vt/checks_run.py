"""Checks over single solver runs: C01 C03 C04 C05 C12 (QPTrace)."""
import json, os
import numpy as np
from . import build, gen, rec, qp, enc

HUGE = [2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**32 + 2, 2**33 + 5, 2**40, 2**52, 3 * 2**31, 2**31 + 3, 2**16 + 1, 257]     # limits beyond narrower integers
def problems(ctx, count, big, maxn=6, salt=0):
    r = ctx.rng(salt)
    return gen.special() + gen.suite(r, count, maxn, big)

def option_mix(r, i):
    """Settings that differ from the default in most cases."""
    o = {}
    if i % 3 == 1: o.update(reltol=10.0 ** -r.integers(2, 10), abstol=10.0 ** -r.integers(2, 11))
    if i % 5 == 2: o.update(sigma=float(r.choice([0.0, 10.0 ** r.integers(-4, 3)])))
    sd = float(r.choice([0.0, 0.0, 0.0, 1e-6, 1e-3, 0.1, 0.5, 2.0]))
    return o, sd

TOLS = [0.0, -1.0, float("nan"), float("inf"), 1e300, 5e-324, 1e-16, 3.0, 1e-4, 0.5, 1.0, 1e6, -0.0]
SIGMAS = [-1.0, 0.0, float("inf"), 1e300, 5e-324, -float("inf"), 1e-9, 1.0, 1e6]
def edge_options(r, i):
    """Settings at and beyond the edges of their ranges."""
    o = {}
    if i % 4 < 3: o["reltol"] = TOLS[int(r.integers(len(TOLS)))]
    if i % 4 != 1: o["abstol"] = TOLS[int(r.integers(len(TOLS)))]
    if i % 4 == 3: o["sigma"] = SIGMAS[int(r.integers(len(SIGMAS)))]
    return o, float(r.choice([0.0, 0.0, 0.0, -1.0, 1e-300, 100.0, 0.125, 1.0])) if i % 3 == 0 else 0.0

def run_traces(ctx, count, big, unsolv=0, salt=0, dflt=False, maxn=6, odd=0, uneven=0, sweep=0, top=136, giants=0):
    lib = ctx.lib(); ps = problems(ctx, count, big, maxn, salt); r = ctx.rng(salt + 100)
    def go(R):
        for i, q in enumerate(ps):
            for j, fmt in enumerate(("sparse", ("row", "col")[i % 2])):
                N = q.n + q.m + q.p
                perm = r.permutation(N) if (i + j) % 2 else None
                o, sd = ({}, 0.0) if dflt or (i + j) % 4 == 0 else option_mix(r, i + j)
                R.begin("%s %s perm=%s opt=%s" % (q.name, fmt, perm is not None, o))
                c = rec.runs(lib, q, "%d-%s" % (i, fmt), opt=o, perm=perm, fmt=fmt, sigma_d=sd, cap=18, huge=HUGE[i % len(HUGE)])
                R.put(c, len(c["it"]) + 1)
        for i in range(unsolv):
            n, m = int(r.integers(1, 6)), int(r.integers(1, 8))
            q = (gen.infeasible, gen.infeasible_eq, gen.unbounded)[i % 3](r, max(n, 2), m)
            R.begin(q.name)
            c = rec.runs(lib, q, "u%d" % i, perm=None, cap=8, far=(12, 37, 100, 300) if odd else ())
            R.put(c, len(c["it"]) + 1)
        for i in range(uneven):
            q = gen.uneven(r, i); R.begin(q.name); o, sd = option_mix(r, i) if i % 2 else ({}, 0.0)
            c = rec.runs(lib, q, "v%d" % i, opt=o, sigma_d=sd, fmt=("sparse", "row", "col")[i % 3], perm=r.permutation(q.n + q.m + q.p) if i % 5 == 0 else None, cap=14)
            R.put(c, len(c["it"]) + 1)
        for i, q in enumerate(gen.sweep(r, sweep, top=top) + gen.giants(r, giants)):
            R.begin(q.name); o, sd = option_mix(r, i) if i % 4 == 0 else ({}, 0.0)
            c = rec.runs(lib, q, "l%d" % i, opt=o, sigma_d=sd, fmt=("sparse", "row", "col")[i % 3], perm=r.permutation(q.n + q.m + q.p) if i % 5 == 0 else None, cap=14)
            R.put(c, len(c["it"]) + 1)
        for i in range(ctx.n(20, 300)):
            q = gen.scaled(r, i); R.begin(q.name)
            c = rec.runs(lib, q, "m%d" % i, fmt=("sparse", "row", "col")[i % 3], perm=r.permutation(q.n + q.m + q.p) if i % 5 == 0 else None, cap=20)
            R.put(c, len(c["it"]) + 1)
        for i in range(ctx.n(150, 3000)):
            q = gen.peculiar(r, i); R.begin(q.name); o, sd = option_mix(r, i) if i % 3 == 0 else ({}, 0.0)
            c = rec.runs(lib, q, "q%d" % i, opt=o, sigma_d=sd, fmt=("sparse", "row", "col")[i % 3], perm=r.permutation(q.n + q.m + q.p) if i % 4 == 0 else None, cap=14)
            R.put(c, len(c["it"]) + 1)
        es = gen.suite(r, ctx.n(100, 1500), 5)
        for i, q in enumerate(es):
            o, sd = edge_options(r, i); R.begin("%s %s sigma_d %g" % (q.name, o, sd))
            c = rec.runs(lib, q, "e%d" % i, opt=o, sigma_d=sd, fmt=("sparse", "row", "col")[i % 3], perm=r.permutation(q.n + q.m + q.p) if i % 4 == 0 else None, cap=10, far=(25,) if i % 5 == 0 else ())
            R.put(c, len(c["it"]) + 1)
        for i in range(ctx.n(40, 600)):
            q = gen.hugebound(r, i); R.begin(q.name)
            c = rec.runs(lib, q, "h%d" % i, perm=r.permutation(q.n + q.m + q.p) if i % 3 == 0 else None, fmt=("sparse", "row", "col")[i % 3], cap=12, extreme=True)
            R.put(c, len(c["it"]) + 1)
        for i in range(odd):
            q = gen.nonfinite(r, i); R.begin(q.name)
            o, sd = option_mix(r, i)
            c = rec.runs(lib, q, "o%d" % i, opt=o, perm=r.permutation(q.n + q.m + q.p) if i % 3 == 0 else None, fmt=("sparse", "row", "col")[i % 3], sigma_d=sd, cap=6, far=(23, 100, 250))
            R.put(c, len(c["it"]) + 1)
    ctx.both("QPTrace", go, what="runs of %d problems under every iteration limit" % len(ps))

def machine(ctx, count, maxn):
    """Design level: TLC runs the specified algorithm itself and checks its invariants on every reachable iterate."""
    r = ctx.rng(11); path = os.path.join(ctx.tmp, "machine.json")
    ps = gen.special() + gen.suite(r, count, maxn) + [f(r, 2 + i % 3, 2 + i % 4) for i in range(count // 20) for f in (gen.infeasible, gen.infeasible_eq, gen.unbounded)]
    with open(path, "w") as f:
        for i, q in enumerate(ps):
            o, sd = option_mix(r, i) if i % 2 else ({}, 0.0)
            f.write(json.dumps(dict(name=q.name, prob=enc.prob(q), solvable=bool(q.meta.get("solvable")) and sd <= 0.1,
                                    opt=dict(reltol=enc.d(max(o.get("reltol", 1e-6), 1e-8)), abstol=enc.d(max(o.get("abstol", 1e-6), 1e-8)), sigmad=enc.d(sd)))) + "\n")
    ctx.model("MCQP", "MCQP.cfg", dict(CASES=path), expect=5 * len(ps))
def fails(ctx, count):
    """Factorisations that report a zero pivot: at setup, and at every iteration."""
    import ctypes as C
    from .checks_api import Wrap
    from .checks_session import Capture, parse
    if "LDL_numeric" in build.missing(): ctx.notes.append("LDL_numeric is not exported with its type: no fault injected"); return
    r = ctx.rng(21); ps = gen.special() + gen.suite(r, count // 3, 5); note = []
    def go(R):
        W = Wrap(build.lib_fail()); W.l.f_arm.argtypes = [C.c_long] * 2; W.l.f_calls.restype = C.c_long; fired = 0
        for i in range(count):
            q = ps[i % len(ps)]; fmt = ("sparse", "row", "col")[i % 3]; perm = r.permutation(q.n + q.m + q.p) if i % 2 else None; opt = dict(reltol=10.0 ** -r.integers(2, 8)) if i % 4 == 0 else {}
            R.begin("%s %s" % (q.name, fmt)); W.l.f_arm(-1, 0); W.l.w_clear(); ref, conv = [], -1
            for lim in range(14):
                o = qp.Obj(W, q, fmt=fmt, perm=perm); o.setopt(maxit=lim, **opt); code = o.solve(); ref.append(enc.w(*o.vecs())); sg = o.opts()["sigma"]; o.cleanup()
                if code == 0: conv = lim - 1; break
                if not sg > 0: break                                  # from here on another step rule
            last = len(ref) - 1 - (conv >= 0); at = int(r.choice([0, 1, 2] + list(range(2, last + 3))))
            W.l.w_clear(); W.l.w_mode(i % 2, (0xA5, 0xFF)[i % 2]); W.l.w_begin(1); W.l.f_arm(at, int(r.integers(0, 50)))
            with Capture(): o = qp.Obj(W, q, fmt=fmt, perm=perm)
            s = o.stats(); evs = [dict(do="setup", flag=s["flag"], iter=s["iter"], w=enc.w(*o.vecs()))]
            o.setopt(**opt); k = 0; fired += at == 1
            for j in range(int(r.integers(1, 4))):
                vb = int(r.choice([0, 0, 1, 2, -3])); lim = int(r.integers(0, max(last - k, 0) + 1)) if conv < 0 or r.random() < 0.6 else 60
                before = W.l.f_calls(); o.setopt(maxit=lim, verbose=vb)
                with Capture() as cap: code = o.solve()
                s = o.stats(); k = s["iter"]; evs.append(dict(do="solve", limit=lim, code=int(code), flag=s["flag"], iter=k, w=enc.w(*o.vecs()), calls=W.l.f_calls() - before, verbose=vb, lines=parse(cap.text), t=[enc.d(s[x]) for x in ("tsetup", "tsolve", "tkkt", "tldl")]))
                if code == 1: break
                if k > last: break
            if code == 1: 
                for lim in (0, 5):
                    before = W.l.f_calls(); o.setopt(maxit=lim, verbose=0)
                    with Capture() as cap: code = o.solve()
                    s = o.stats(); evs.append(dict(do="solve", limit=lim, code=int(code), flag=s["flag"], iter=s["iter"], w=enc.w(*o.vecs()), calls=W.l.f_calls() - before, verbose=0, lines=parse(cap.text), t=[enc.d(s[x]) for x in ("tsetup", "tsolve", "tkkt", "tldl")]))
            fired += W.l.f_calls() > 0
            o.cleanup(); log = W.log(); evs.append(dict(do="cleanup", live=W.l.w_live() - 0, odd=sum(1 for e in log if e[0] > 2) + W.l.w_damaged()))
            W.l.w_reset(); W.l.f_arm(-1, 0); R.put(dict(id=str(i), failat=at, conv=conv, ref=ref, evs=evs), len(evs) + 1)
        return fired
    rc = ctx.record(go, "fail")
    if not rc["extra"]: ctx.notes.append("the factorisation is not called through LDL_numeric: no fault could be injected"); return
    ctx.validate("FailTrace", rc, what="factorisations that fail")
def C03(ctx): machine(ctx, ctx.n(300, 4000), 4); run_traces(ctx, ctx.n(420, 6000), ctx.n(30, 300), unsolv=ctx.n(30, 200), uneven=ctx.n(60, 800), sweep=ctx.n(516, 2000), top=ctx.n(136, 260), giants=ctx.n(8, 60))
def C05(ctx): machine(ctx, ctx.n(300, 4000), 4); run_traces(ctx, ctx.n(420, 6000), ctx.n(30, 300), unsolv=ctx.n(60, 500), uneven=ctx.n(120, 2000), sweep=ctx.n(516, 2000), top=ctx.n(136, 260), giants=ctx.n(8, 60))
def C04(ctx): run_traces(ctx, ctx.n(420, 6000), ctx.n(30, 300), unsolv=ctx.n(60, 400), odd=ctx.n(150, 2000), sweep=ctx.n(120, 1200), giants=ctx.n(16, 60)); fails(ctx, ctx.n(240, 4000))
def C12(ctx): run_traces(ctx, ctx.n(420, 6000), ctx.n(30, 300), sweep=ctx.n(360, 2000), top=ctx.n(136, 260), giants=ctx.n(16, 60)); times(ctx)
def times(ctx):
    """Histories of one object under a simulated clock."""
    from .checks_api import Wrap
    r = ctx.rng(7); ps = [q for q in gen.special() + gen.suite(r, ctx.n(60, 600), 5)]
    kinds = [lambda k: np.full(k, 137), lambda k: r.integers(0, 3, k), lambda k: r.integers(1, 2000, k), lambda k: r.integers(0, 4, k) * 500_000_000, lambda k: r.integers(0, 3_000_000_000, k),
             lambda k: np.full(k, 999_999_999), lambda k: np.full(k, 1_000_000_000), lambda k: np.where(r.random(k) < 0.1, 1_000_000_001, 3), lambda k: np.full(k, 333_333_333)]
    def go(R):
        W = Wrap()
        for i in range(ctx.n(400, 5000)):
            q = ps[i % len(ps)]; steps = np.array(kinds[i % len(kinds)](61), dtype=np.int64); start = int(r.integers(0, 1000)) * 10**9 + int(r.choice([0, 1, 999_999_999, 500_000_000, r.integers(10**9)]))
            R.begin("times %s" % q.name); W.l.w_clock(start, steps.ctypes.data, len(steps)); seen = 0
            def readings():
                nonlocal seen
                k = W.l.w_clock_log(None); a = np.zeros(k, dtype=np.int64); W.l.w_clock_log(a.ctypes.data); a, seen = a[seen:], k
                return [[int(v // 10**9), int(v % 10**9)] for v in a]
            fmt = ("sparse", "row", "col")[i % 3]; o = qp.Obj(W, q, fmt=fmt, perm=r.permutation(q.n + q.m + q.p) if i % 2 else None, sigma_d=float(r.choice([0.0, 0.0, 0.3])) if fmt == "sparse" else 0.0)
            evs = [dict(do="setup", read=readings(), t=[enc.d(o.stats()["tsetup"])], made=0, step=[0, 0])]; it = 0; low = int(steps.min())
            for lim in [int(v) for v in r.choice([0, 1, 2, 5, 100], size=int(r.integers(1, 4)))]:
                o.setopt(maxit=lim, sigma=100.0, verbose=int(r.choice([0, 0, 1, 2, 5, -1]))); o.solve(); s = o.stats()
                evs.append(dict(do="solve", read=readings(), t=[enc.d(s[k]) for k in ("tsetup", "tsolve", "tkkt", "tldl")], made=s["iter"] - it, step=[low // 10**9, low % 10**9])); it = s["iter"]
            o.cleanup(); W.l.w_clock(0, None, 0); R.put(dict(id=str(i), start=[start // 10**9, start % 10**9], evs=evs), len(evs) + 1)
    ctx.both("TimeTrace", go, what="times under a simulated clock")

# ------------------------------------------------------------------ outcomes
def cert_of(q):
    m = q.meta
    if m.get("z") is None or not q.meta.get("solvable"): return None
    x, z, s = m["x"], m["z"], m["s"]; y = m.get("y", [])
    return x, y, z, s

def small_problems(ctx, shapes):
    """Problems enumerated by TLC from SmallQP.tla: (Problem, certificate, strong)."""
    import json, re
    out = []
    for (n, m, p, thin, every) in shapes:
        r = ctx.model("SmallQP", "SmallQP.cfg", dict(NN=str(n), MM=str(m), PP=str(p), THIN=str(thin), SEED=str(ctx.seed % 1000), ALL="1" if every else "0"))
        for l in r["out"].splitlines():
            if not l.startswith('"CASE '): continue
            d = json.loads(json.loads(l)[5:])
            A, b = (d["A"], d["b"]) if p else (None, None)
            q = qp.Problem(d["P"], d["c"], d["G"], d["h"], A, b, name="small-n%dm%dp%d" % (n, m, p), solvable=True)
            lam = float(np.linalg.eigvalsh(q.P)[0]) if d["strong"] else 0.0
            out.append((q, (d["x"], d["y"] if p else [], d["z"], d["s"]), max(lam, 0.0) * 0.999))
    return out

def final_traces(ctx, dflt, small, count, big, unsolv, maxn=8):
    lib = ctx.lib(); r = ctx.rng(7)
    ps = [(q, None, 0.0) for q in gen.special()] + small
    for q in gen.suite(r, count, maxn, big) + gen.sweep(r, ctx.n(516, 2000), top=ctx.n(136, 260)) + gen.giants(r, ctx.n(24, 120)) + [gen.peculiar(r, i) for i in range(ctx.n(300, 6000))]:
        lam = float(np.linalg.eigvalsh(q.P)[0]); ps.append((q, cert_of(q), max(lam, 0) * 0.99 if lam > 1e-6 else 0.0))
    def go(R):
        for i, (q, cert, lam) in enumerate(ps):
            fmt = ("sparse", "row", "col")[i % 3]; perm = r.permutation(q.n + q.m + q.p) if i % 4 == 3 else None
            if dflt and perm is not None:      # an order that meets no vanishing pivots (an unlucky one of an LP can fail to converge)
                at = np.flatnonzero(perm < q.n + q.p); perm[at] = sorted(perm[at], key=lambda v: v >= q.n)
                if not lam: perm = None
            R.begin("%s %s" % (q.name, fmt))
            o, sd = ({}, 0.0) if dflt else option_mix(r, i)
            R.put(rec.final(lib, q, str(i), opt=o, perm=perm, fmt=fmt, sigma_d=sd, cert=cert, wellposed=dflt, strong=lam, rng=None), 2)
        for i in range(unsolv):
            n, m = int(r.integers(2, 7)), int(r.integers(1, 9))
            q = (gen.infeasible, gen.infeasible_eq, gen.unbounded)[i % 3](r, n, m)
            R.begin(q.name); o, sd = option_mix(r, i)
            R.put(rec.final(lib, q, "u%d" % i, opt=o, sigma_d=sd, fmt=("sparse", "row", "col")[i % 3]), 2)
    ctx.both("FinalTrace", go, what="outcomes")

SMALL_Q = [(1, 1, 0, 1, 1), (1, 2, 0, 1, 1), (1, 3, 0, 1, 1), (2, 1, 0, 1, 1), (2, 2, 0, 1, 1), (2, 1, 1, 1, 1), (2, 3, 0, 40, 0), (2, 2, 1, 40, 0)]
SMALL_T = [(1, 1, 0, 1, 1), (1, 2, 0, 1, 1), (1, 3, 0, 1, 1), (1, 4, 0, 1, 1), (2, 1, 0, 1, 1), (2, 2, 0, 1, 1), (2, 1, 1, 1, 1), (2, 3, 0, 1, 1), (2, 2, 1, 1, 1)]
def C02(ctx):
    final_traces(ctx, True, small_problems(ctx, ctx.n(SMALL_Q, SMALL_T)), ctx.n(1500, 20000), ctx.n(60, 500), 0)
def C01(ctx):
    run_traces(ctx, ctx.n(200, 2000), ctx.n(15, 100), unsolv=ctx.n(40, 200), odd=ctx.n(150, 2000), giants=ctx.n(16, 60))
    final_traces(ctx, False, [], ctx.n(2500, 30000), ctx.n(80, 600), ctx.n(400, 4000))
