"""Checks that compare two runs: C06 (ordering, relabelling), C07 (formats), C10 (optional equalities)."""
import numpy as np
from . import gen, rec, qp, enc

def idmap(q): return dict(x=list(range(1, q.n + 1)), y=list(range(1, q.p + 1)), z=list(range(1, q.m + 1)))

def pair(q, a, b, id, map=None, mode="round", given=None, after=None, held=((), ()), light=False):
    opt = a["opt"]
    return dict(id=id, name=q.name, prob=enc.prob(q), opt=opt, a=dict(it=a["it"], perm=a["perm"]), b=dict(it=b["it"], perm=b["perm"]),
                rough=q.name.endswith(("-units", "-tiny")), held=[list(held[0]), list(held[1])], map=map or idmap(q), mode=mode, light=light, given=[] if given is None else [int(v) + 1 for v in given], after=[] if after is None else [int(v) + 1 for v in after])

def put(R, case):
    R.put(case, 1 + min(len(case["a"]["it"]), len(case["b"]["it"])) + 1)

def relabel(r, q):
    """b's problem and the names: map[i] = index in b of a's i (0-based)."""
    mx, my, mz = r.permutation(q.n), r.permutation(q.p), r.permutation(q.m)
    P = np.zeros_like(q.P); P[np.ix_(mx, mx)] = q.P
    G = np.zeros_like(q.G); G[np.ix_(mz, mx)] = q.G
    A = np.zeros_like(q.A)
    if q.p: A[np.ix_(my, mx)] = q.A
    c, h, b = np.zeros(q.n), np.zeros(q.m), np.zeros(q.p); c[mx] = q.c; h[mz] = q.h; b[my] = q.b
    q2 = qp.Problem(P, c, G, h, A, b, name=q.name + "-relabelled", **q.meta)
    return q2, dict(x=(mx + 1).tolist(), y=(my + 1).tolist(), z=(mz + 1).tolist())

def order_kinds(r, q):
    N = q.n + q.m + q.p
    yield "natural", np.arange(N)
    yield "reverse", np.arange(N)[::-1].copy()
    yield "random", r.permutation(N)
    yield "z first", np.concatenate([np.arange(q.n + q.p, N), r.permutation(q.n + q.p)])
    yield "y first", np.concatenate([np.arange(q.n, q.n + q.p), np.arange(q.n), np.arange(q.n + q.p, N)])

def C06(ctx):
    lib = ctx.lib(); r = ctx.rng()
    ps = gen.special() + gen.suite(r, ctx.n(300, 4000), 6, ctx.n(15, 150)) + gen.sweep(r, ctx.n(80, 800)) + [gen.peculiar(r, i) for i in range(ctx.n(100, 1500))]
    def go(R):
        for i, q in enumerate(ps):
            R.begin(q.name)
            fmt = ("sparse", "row", "col")[i % 3]
            a = rec.runs(lib, q, "a", cap=16, outcome=True, fmt=fmt)
            ks = list(order_kinds(r, q))
            for kind, perm in [ks[i % len(ks)], ks[2]] if i % 2 else [ks[i % len(ks)]]:
                R.begin("%s with %s ordering %s" % (q.name, kind, perm.tolist()))
                keep = {}
                b = rec.runs(lib, q, "b", perm=perm, cap=16, outcome=True, fmt=fmt, keep=keep)
                put(R, pair(q, a, b, "%d-%s" % (i, kind), given=perm, after=keep["perm"]))
            q2, mp = relabel(r, q)
            R.begin(q2.name)
            b = rec.runs(lib, q2, "b", cap=16, outcome=True, fmt=fmt, perm=r.permutation(q.n + q.m + q.p) if i % 4 == 0 else None)
            put(R, pair(q, a, b, "%d-relabel" % i, map=mp))
        for i, q in enumerate(gen.giants(r, ctx.n(12, 80))):
            fmt = ("sparse", "row", "col")[i % 3]; a = rec.runs(lib, q, "a", light=True, fmt=fmt); keep = {}
            X, Y, S = r.permutation(q.n), q.n + r.permutation(q.p), q.n + q.p + r.permutation(q.m)
            perm = (np.concatenate([X, Y, S]), np.concatenate([S, X, Y]), np.concatenate([X, S, Y]))[i % 3] if q.p else r.permutation(q.n + q.m)       # no equality before its variables: no vanishing pivots
            R.begin("%s with another ordering" % q.name); b = rec.runs(lib, q, "b", perm=perm, light=True, fmt=fmt, keep=keep)
            put(R, pair(q, a, b, "g%d" % i, given=perm, after=keep["perm"], light=True))
            q2, mp = relabel(r, q); R.begin(q2.name); put(R, pair(q, a, rec.runs(lib, q2, "b", light=True, fmt=fmt), "g%d-relabel" % i, map=mp, light=True))
    ctx.both("PairTrace", go, what="orderings and relabellings")

def tiny(r, q):
    """The same shape with some entries of very small magnitude and some negative zeros."""
    G, A, P = q.G.copy(), q.A.copy(), q.P.copy()
    for M in (G, A):
        if M.size:
            k = r.integers(0, M.size, size=max(1, M.size // 4)); f = M.ravel(); f[k] = r.choice([1e-9, -1e-12, 1e-300, -0.0, 5e-324, 1e-5], size=len(k))
    return qp.Problem(P, q.c, G, q.h, A, q.b, name=q.name + "-tiny")

def allzeros(r, q, frac=0.5):
    z = {}
    for k, M in (("P", q.P), ("G", q.G), ("A", q.A)):
        w = np.argwhere(M == 0); z[k] = [tuple(int(u) for u in v) for v in w if r.random() < frac]
    s = [(j, i) for i, j in z["P"]]; z["P"] = z["P"] + s
    return z

def negzero(q):
    f = lambda M: np.where(M == 0, -0.0, M)
    return qp.Problem(f(q.P), q.c, f(q.G), q.h, f(q.A), q.b, name=q.name + "-negzero", **q.meta)

def units(r, q):
    """The same problem with some variables in units so small, and constraints in units so large, that coefficients become tiny."""
    d = np.where(r.random(q.n) < 0.4, 10.0 ** r.uniform(3, 10, size=q.n), 1.0); e = np.where(r.random(q.m) < 0.3, 10.0 ** -r.uniform(0, 8, size=q.m), 1.0)
    P = q.P / np.outer(d, d); return qp.Problem((P + P.T) / 2, q.c / d, q.G / d * e[:, None], q.h * e, q.A / d, q.b, name=q.name + "-units")

def C07(ctx):
    lib = ctx.lib(); r = ctx.rng()
    ps = gen.special() + gen.suite(r, ctx.n(260, 4000), 6, ctx.n(15, 150))
    ps += [tiny(r, q) for q in gen.suite(r, ctx.n(60, 600), 5)] + [units(r, q) for q in gen.suite(r, ctx.n(40, 600), 5)] + [gen.squares(r, i) for i in range(ctx.n(36, 400))] + gen.sweep(r, ctx.n(129, 1000), 4) + [gen.peculiar(r, i) for i in range(ctx.n(60, 1000))]
    def go(R):
        for i, q in enumerate(ps):
            R.begin(q.name)
            N = q.n + q.m + q.p
            perm = r.permutation(N) if i % 2 else None
            ha = []; a = rec.runs(lib, q, "a", cap=16, outcome=True, perm=perm, held=ha)
            def other(qq, id, **kw): h = []; b = rec.runs(lib, qq, "b", cap=16, outcome=True, perm=perm, held=h, **kw); put(R, pair(q, a, b, id, held=(ha, h)))
            for fmt in ("row", "col"):
                R.begin("%s %s" % (q.name, fmt))
                qq = negzero(q) if i % 3 == 0 else q
                other(qq, "%d-%s" % (i, fmt), fmt=fmt)
            z = allzeros(r, q, (0.3, 1.0)[i % 2])
            R.begin("%s with stored zeros" % q.name)
            other(negzero(q) if i % 2 else q, "%d-zeros" % i, zeros=z)
            R.begin("%s with shuffled rows" % q.name)
            other(q, "%d-shuffled" % i, rng=r)
        for i, q in enumerate(gen.giants(r, ctx.n(12, 80))):
            ha = []; R.begin(q.name); a = rec.runs(lib, q, "a", light=True, held=ha)
            z = allzeros(r, q, min(0.3, 2000 / q.n / (q.n + q.m + q.p)))
            for k, kw in enumerate((dict(fmt="row"), dict(fmt="col"), dict(zeros=z), dict(rng=r))):
                R.begin("%s %s" % (q.name, ("row", "col", "zeros", "shuffled")[k])); h = []
                b = rec.runs(lib, q, "b", light=True, held=h, **kw); put(R, pair(q, a, b, "g%d-%d" % (i, k), held=(ha, h), light=True))
    ctx.both("PairTrace", go, what="formats")

def C10(ctx):
    lib = ctx.lib(); r = ctx.rng()
    ps = [q for q in gen.special()] + gen.suite(r, ctx.n(150, 2500), 6, ctx.n(6, 60)) + gen.sweep(r, ctx.n(24, 400)) + gen.giants(r, ctx.n(4, 24))
    NULLS = [("Ajc",), ("Air",), ("Apr",), ("b",), ("Ajc", "Air", "Apr", "b"), ("Ajc", "Air", "Apr"), ("Air", "b"), ()]
    def go(R):
        for i, q in enumerate(ps):
            base = qp.Problem(q.P, q.c, q.G, q.h, name=q.name + "-noeq")
            N = q.n + q.m
            perm = r.permutation(N) if i % 2 else None
            # some full equality data to be ignored
            pe = int(r.integers(1, 4)); withA = qp.Problem(q.P, q.c, q.G, q.h, r.normal(size=(pe, q.n)), r.normal(size=pe), name=q.name + "-ignored")
            for fmt in ("sparse", ("row", "col")[i % 2]):
                R.begin(base.name + " " + fmt)
                a = rec.runs(lib, base, "a", cap=12, perm=perm, fmt=fmt)
                nl = [NULLS[(i + j) % len(NULLS)] for j in range(3)] if fmt == "sparse" else [("Apr",), ("b",), ("Apr", "b"), ()]
                for nulls in nl:
                    pv = 0 if not nulls or i % 5 == 0 else pe
                    R.begin("%s %s p=%d null %s" % (base.name, fmt, pv, nulls))
                    b = rec.runs(lib, withA, "b", cap=12, perm=perm, fmt=fmt, nulls=nulls, p=pv)
                    put(R, pair(base, a, b, "%d-%s-%s" % (i, fmt, "".join(nulls)), mode="bit"))
            # supplied equalities are part of the problem (judged by the specification of the outcome below)
    ctx.both("PairTrace", go, what="absent equalities")
    ps2 = [q for q in gen.special() if q.p] + [q for q in gen.suite(r, ctx.n(400, 5000), 6, ctx.n(10, 100)) + gen.sweep(r, ctx.n(516, 2000), top=ctx.n(136, 260)) + gen.giants(r, ctx.n(24, 120)) + [gen.peculiar(r, i) for i in range(ctx.n(200, 3000))] if q.p]
    from .checks_run import cert_of, option_mix
    def go2(R):
        for i, q in enumerate(ps2):
            R.begin(q.name); lam = float(np.linalg.eigvalsh(q.P)[0])
            R.put(rec.final(lib, q, str(i), fmt=("sparse", "row", "col")[i % 3], cert=cert_of(q), wellposed=True, strong=lam * 0.99 if lam > 1e-6 else 0.0), 2)
        # equalities without any stored coefficient: 0 = b, impossible unless b is zero
        for i in range(ctx.n(120, 1500)):
            q0 = ps[i % len(ps)]; pe = int(r.integers(1, 4)); A = np.zeros((pe, q0.n)); b = np.zeros(pe)
            if i % 3 < 2: b[r.random(pe) < 0.6] = 1.0
            if i % 3 == 2 and q0.n > 1 and q0.p == 0: A[0, :1] = 1.0; b = np.zeros(pe); b[-1] = 1.0
            q = qp.Problem(q0.P, q0.c, q0.G, q0.h, A, b, name="empty-equalities"); R.begin(q.name)
            full = {"A": [(a, k) for a in range(pe) for k in range(q.n)]} if i % 4 == 3 else None
            o, sd = ({}, 0.0) if i % 2 else option_mix(r, i)
            R.put(rec.final(lib, q, "e%d" % i, opt=o, sigma_d=sd, fmt=("sparse", "sparse", "row", "col")[i % 4], perm=r.permutation(q.n + q.m + q.p) if i % 5 == 0 else None, zeros=full), 2)
    rc = ctx.record(go2, "FinalTrace")
    for want in ("C01", "C02"): ctx.validate("FinalTrace", rc, env=dict(WANT=want), what="supplied equalities", count=want == "C01")
