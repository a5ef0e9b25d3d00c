"""C11 (KKT assembly and updates) and C18 (building blocks)."""
import json
import numpy as np
from . import gen, rec, qp, enc, blocks
from .blocks import Csc, Buf, I, D, zd, zi, dims

def emitted(ctx, module, cfg, env):
    r = ctx.model(module, cfg, env)
    return [json.loads(json.loads(l)[5:]) for l in r["out"].splitlines() if l.startswith('"CASE ')]

def direct_kkt(B, q, r, zeros=None, shuffle=False, ups=4):
    """Assembles through the functions themselves, then updates."""
    z = zeros or {}
    g = r if shuffle else None
    P, A, G = Csc.of(q.P, z.get("P", ()), g), Csc.of(q.A, z.get("A", ()), g), Csc.of(q.G, z.get("G", ()), g)
    Gt, At = B.transpose(G), B.transpose(A) if q.p else Csc.room(q.n, 0, 0)
    N = q.n + q.m + q.p
    nnz = P.ir.n + 2 * G.ir.n + 2 * A.ir.n + q.m
    K = Csc.room(N, N, nnz)
    B.h_kkt(0, q.n, q.m, q.p, *P.args, *A.args, *At.args, *G.args, *Gt.args, *K.args, nnz)
    ok = K.guarded() and P.kept() and A.kept() and G.kept()
    mats = dict(P=[], A=[], G=[], At=[], Gt=[], K=K.rec())
    if not ok: mats["K"]["cap"] = -1                      # wrote outside its arrays
    up = []
    if q.p == 0 and not shuffle:
        U = Csc.room(q.n + q.m, q.n + q.m, nnz)
        B.h_kkt(1, q.n, q.m, 0, *P.args, *A.args, *At.args, *G.args, *Gt.args, *U.args, nnz); up = U.rec()
        if not U.guarded(): up["cap"] = -1
    us = []
    for k in range(ups):
        s, zz = 10.0 ** r.uniform(-6, 4, q.m), 10.0 ** r.uniform(-6, 4, q.m); ds, dz = r.normal(size=q.m), r.normal(size=q.m)
        ap, ad = float(r.random()), float(r.random()); ind = int(r.integers(3)) if k else 0
        b = [D(v) for v in (s, zz, ds, dz)]
        B.h_update(N, *K.args, *[v.p for v in b], ap, ad, q.m, q.n, q.p, ind)
        kr = K.rec()
        if not (all(v.kept() for v in b) and K.guarded()): kr["cap"] = -1
        us.append(dict(how="direct", ind=ind, s=enc.v(s), z=enc.v(zz), ds=enc.v(ds), dz=enc.v(dz), ap=enc.d(ap), ad=enc.d(ad), K=kr))
    return dict(prob=enc.prob(q), mats=mats, up=up, ups=us)

def object_kkt(lib, q, r, fmt, zeros=None, rng=None, steps=4):
    """What a solver object holds after setup and after runs cut at 1, 2, ... iterations."""
    o = qp.Obj(lib, q, fmt=fmt, zeros=zeros, rng=rng)
    g = lambda w: (lambda m: dims(m) if m else [])(o.mat(w))
    if o.pr.p == 0: A = At = []
    else: A, At = g(1), g(3)
    mats = dict(P=g(0), A=A, G=g(2), At=At, Gt=g(4), K=g(5)); us = []
    prev = o.vecs(); o.setopt(reltol=1e-300, abstol=1e-300)
    dummy = np.zeros(q.m)
    for k in range(1, steps + 1):
        o.setopt(maxit=1); c = o.solve()
        if c != qp_maxit or not all(np.all(np.isfinite(v)) for v in prev): break
        us.append(dict(how="solve", ind=0, s=enc.v(prev[3]), z=enc.v(prev[2]), ds=enc.v(dummy), dz=enc.v(dummy), ap=enc.d(0), ad=enc.d(0), K=g(5)))
        prev = o.vecs()
    o.cleanup()
    return dict(prob=enc.prob(q), mats=mats, up=[], ups=us)
qp_maxit = 2

def pattern_problem(d, n, m, p, r):
    """Distinct values in the cells of an emitted pattern."""
    P, A, G = np.zeros((n, n)), np.zeros((p, n)), np.zeros((m, n))
    for i, j in d["P"]: P[i-1, j-1] = P[j-1, i-1] = 2 + 10 * min(i, j) + max(i, j) + (100 if i == j else 0)
    for i, j in d["A"]: A[i-1, j-1] = -(3000 + 10 * i + j)
    for i, j in d["G"]: G[i-1, j-1] = 500.5 + 10 * i + j
    return qp.Problem(P, r.normal(size=n), G, 1 + r.random(m), A, r.normal(size=p), name="pattern")

def C11(ctx):
    from .checks_pair import allzeros, tiny
    lib = ctx.lib(); B = blocks.Blocks(lib); r = ctx.rng()
    shapes = [(1, 1, 0), (1, 1, 1), (1, 2, 1), (2, 1, 0), (2, 2, 0), (2, 1, 1), (2, 2, 1)] + ([] if ctx.quick else [(2, 1, 2), (3, 1, 0), (2, 3, 0), (1, 3, 2), (3, 1, 1)])
    ps = []
    for n, m, p in shapes:
        for d in emitted(ctx, "KKTPatterns", "KKTPatterns.cfg", dict(NN=str(n), MM=str(m), PP=str(p))): ps.append(pattern_problem(d, n, m, p, r))
    more = gen.special() + gen.suite(r, ctx.n(150, 2000), 6, ctx.n(8, 80))
    more += [tiny(r, q) for q in gen.suite(r, ctx.n(30, 300), 5)] + gen.sweep(r, ctx.n(48, 600), 4, ctx.n(100, 136)) + gen.giants(r, ctx.n(4, 24))
    direct = not B.lacks(ctx, "h_kkt", "h_update", "h_transpose")
    def go(R):
        for i, q in enumerate(ps):
            R.begin("pattern %d n%d m%d p%d" % (i, q.n, q.m, q.p))
            if direct: c = direct_kkt(B, q, r, ups=3); R.put(c, 2 + len(c["ups"]))
            c = object_kkt(lib, q, r, ("sparse", "row", "col")[i % 3], steps=2); R.put(c, 2 + len(c["ups"]))
        for i, q in enumerate(more):
            R.begin(q.name); dens = min(0.3, 600 / (q.n * (q.n + q.m + q.p)))
            if direct: c = direct_kkt(B, q, r, zeros=allzeros(r, q, dens) if i % 2 else None, shuffle=i % 3 == 1); R.put(c, 2 + len(c["ups"]))
            fmt = ("sparse", "row", "col")[i % 3]
            c = object_kkt(lib, q, r, fmt, zeros=allzeros(r, q, dens) if i % 2 and fmt == "sparse" else None, rng=r if i % 6 == 0 else None); R.put(c, 2 + len(c["ups"]))
    ctx.both("KKT", go, what="assembled and updated KKT matrices")

# ------------------------------------------------------------------ C18
def vals(r, n, kind=None):
    k = int(r.integers(5)) if kind is None else kind
    if k == 0: return r.normal(size=n)
    if k == 1: return r.integers(-3, 4, size=n).astype(float)
    if k == 2: return r.normal(size=n) * 10.0 ** r.integers(-8, 9, size=n)
    if k == 3: return np.where(r.random(n) < 0.5, 0.0, -r.random(n))
    return r.choice([0.0, -0.0, 1.0, -1.0, 1e-300, 5.0, 5.0], size=n)
def pos(r, n): return 10.0 ** r.uniform(-4, 4, n) if r.random() < 0.5 else r.integers(1, 4, size=n).astype(float)

class Calls:
    def __init__(self, R, B, r): self.R, self.B, self.r = R, B, r
    def put(self, op, kept, **f): self.R.put(dict(op=op, kept=bool(kept), **f), 2)
    def matrix(self, A):
        B, r = self.B, self.r; self.R.begin("matrix %dx%d %s" % (A.m, A.n, A.rec()))
        d = np.zeros(3, dtype=np.int64); pp = np.zeros(3, dtype=np.int64)
        if B.h_setup: B.h_setup(A.m, A.n, A.ir.n, *A.args, d.ctypes.data, pp.ctypes.data); self.put("setup", A.kept(), m=A.m, n=A.n, nnz=A.ir.n, om=int(d[0]), on=int(d[1]), onnz=int(d[2]), same=[int(v) for v in pp] == [p.value for p in A.args])
        if B.h_transpose: T = B.transpose(A); g = T.guarded(); T2 = Csc(T.m, T.n, T.jc.v.copy(), T.ir.v.copy(), T.pr.v.copy()); TT = B.transpose(T2); self.put("transpose", A.kept() and g and TT.guarded() and T2.kept(), A=A.rec(), T=T.rec(), TT=TT.rec())
        if B.Transpose_Row_Count:
            li, lp = zi(A.ir.n), zi(A.m + 1); B.Transpose_Row_Count(A.m, A.n, A.ir.p, A.jc.p, li.p, lp.p)
            self.put("transpose pattern", A.kept() and li.guarded() and lp.guarded(), A=A.rec(),
                     T=dict(m=A.n, n=A.m, cap=A.ir.n, jc=[blocks.clip(v) for v in lp.v], ir=[blocks.clip(v) for v in li.v], pr=enc.v(np.zeros(li.n))))
        for tr in (0, 1) if B.h_mul else ():
            for start in (0, 1):
                x, y = D(vals(r, A.m if tr else A.n)), D(vals(r, A.n if tr else A.m)); y0 = y.v.copy()
                B.h_mul(tr, A.m, A.n, *A.args, x.p, y.p, start * int(r.choice([1, 7])))
                self.put("mulT" if tr else "mul", A.kept() and x.kept() and y.guarded(), A=A.rec(), x=enc.v(x.v), y=enc.v(y0), start=start, o=enc.v(y.v))
        if A.m == A.n and B.h_obj:
            x, c, t = D(vals(r, A.n)), D(vals(r, A.n)), zd(A.n)
            o = B.h_obj(A.n, *A.args, c.p, x.p, t.p)
            self.put("objective", A.kept() and x.kept() and c.kept() and t.guarded(), A=A.rec(), x=enc.v(x.v), c=enc.v(c.v), o=enc.d(o))
    def dense(self, M):
        B = self.B; m, n = M.shape; self.R.begin("dense %s" % M.tolist())
        for row in (0, 1) if B.h_dense else ():
            a = D(M.ravel(order="C" if row else "F")); h = B.h_dense(row, m, n, a.p); d = np.zeros(4, dtype=np.int64); B.h_sp_dims(h, d.ctypes.data)
            k = int(d[3]); jc, ir, pr = np.zeros(n + 1, dtype=np.int64), np.zeros(max(k, 1), dtype=np.int64), np.zeros(max(k, 1))
            if 0 <= k <= m * n: B.h_sp_get(h, jc.ctypes.data, ir.ctypes.data, pr.ctypes.data)
            B.h_sp_free(h)
            self.put("dense", a.kept(), m=m, n=n, D=[enc.v(v) for v in M], S=dict(m=int(d[0]), n=int(d[1]), cap=int(d[2]), jc=[int(v) for v in jc], ir=[int(v) for v in ir[:k]], pr=enc.v(pr[:k])))
    def vectors(self, x, y):
        B = self.B; self.R.begin("vectors %s %s" % (x, y)); n = len(x)
        X, Y = D(x), D(y)
        if B.norm: o = B.norm(X.p, n); self.put("norm", X.kept(), x=enc.v(x), o=enc.d(o))
        if B.innerproduct: o = B.innerproduct(X.p, Y.p, n); self.put("inner", X.kept() and Y.kept(), x=enc.v(x), y=enc.v(y), o=enc.d(o))
        if B.findminmax and n: 
            a, b = zd(1), zd(1); B.findminmax(X.p, n, a.p, b.p); self.put("minmax", X.kept() and a.guarded() and b.guarded(), x=enc.v(x), omin=enc.d(a.v[0]), omax=enc.d(b.v[0]))
        for al in (float(self.r.normal()), -1.0, 0.0):
            if B.updatevariables: Z = D(x); B.updatevariables(Z.p, Y.p, al, n); self.put("axpy", Z.guarded() and Y.kept(), x=enc.v(x), y=enc.v(y), a=enc.d(al), o=enc.v(Z.v))
            if B.checksign: Z = D(np.abs(x)); o = B.checksign(Z.p, Y.p, al, n); self.put("sign", Z.kept() and Y.kept(), x=enc.v(np.abs(x)), y=enc.v(y), a=enc.d(al), o=int(o))
    def steps(self, s, ds, z, dz):
        B, r = self.B, self.r; n = len(s); self.R.begin("steps %s %s %s %s" % (s, ds, z, dz))
        S, DS, Z, DZ, a, b = D(s), D(ds), D(z), D(dz), zd(1), zd(1)
        ev = dict(s=enc.v(s), ds=enc.v(ds), z=enc.v(z), dz=enc.v(dz)); kept = lambda: S.kept() and DS.kept() and Z.kept() and DZ.kept()
        if B.findsteplength: B.findsteplength(S.p, DS.p, Z.p, DZ.p, n, a.p, b.p); self.put("steplength", kept() and a.guarded() and b.guarded(), op1=enc.d(a.v[0]), od1=enc.d(b.v[0]), **ev)
        ap, ad = float(r.random()), float(r.random()); 
        if n and B.formrho:
            o = B.formrho(S.p, DS.p, Z.p, DZ.p, ap, ad, n); self.put("rho", kept(), ap=enc.d(ap), ad=enc.d(ad), o=enc.d(o), **ev)
        lam = zd(n)
        if B.formlambda: B.formlambda(lam.p, S.p, Z.p, n); self.put("lambda", kept() and lam.guarded(), s=ev["s"], z=ev["z"], o=enc.v(lam.v))
        for sel in range(3) if B.form_ds else ():
            lv = np.sqrt(s * z); L = D(lv); o = zd(n); sg, mu = float(r.random()), float(10 ** r.uniform(-6, 2))
            B.form_ds(o.p, L.p, DS.p, DZ.p, sg, mu, n, B.h_selector(sel))
            self.put("ds", kept() and L.kept() and o.guarded(), lam=enc.v(lv), ds=ev["ds"], dz=ev["dz"], sg=enc.d(sg), mu=enc.d(mu), sel=sel, o=enc.v(o.v))
        nn, p = int(r.integers(1, 4)), int(r.integers(0, 3))
        rx, ry, rz, o = D(vals(r, nn)), D(vals(r, p)), D(vals(r, n)), zd(nn + p + n)
        if B.updatekktmatrix_b: B.updatekktmatrix_b(o.p, rx.p, ry.p, rz.p, DS.p, Z.p, nn, n, p); self.put("rhs", kept() and rx.kept() and ry.kept() and rz.kept() and o.guarded(), rx=enc.v(rx.v), ry=enc.v(ry.v), rz=enc.v(rz.v), ds=ev["ds"], z=ev["z"], o=enc.v(o.v))
    def residuals(self, lib, q):
        if not self.B.h_residuals: return
        r = self.r; self.R.begin("residuals " + q.name)
        o = qp.Obj(lib, q, fmt=("sparse", "row", "col")[int(r.integers(3))]); w = [vals(r, q.n), vals(r, q.p), vals(r, q.m), vals(r, q.m)]
        o.setvecs(*w); rx, ry, rz, st = zd(q.n), zd(max(q.p, 1)), zd(q.m), zd(4)
        self.B.h_residuals(o.q, rx.p, ry.p, rz.p, st.p); same = all(np.array_equal(a, b) for a, b in zip(o.vecs(), w)); o.cleanup()
        self.put("residuals", same, q=enc.prob(q), w=enc.w(*w), orx=enc.v(rx.v), ory=enc.v(ry.v[:q.p]), orz=enc.v(rz.v), st=enc.v(st.v))

def C18(ctx):
    lib = ctx.lib(); B = blocks.Blocks(lib); r = ctx.rng()
    mats = []
    for m in (1, 2, 3):
        for n in (1, 2, 3):
            if ctx.quick and m * n > 6: continue
            for d in emitted(ctx, "Shapes", "Shapes.cfg", dict(KIND="mat", NN=str(n), MM=str(m))): mats.append(np.array(d["a"], dtype=float))
    steps, vecs = [], []
    for n in (1, 2) if ctx.quick else (1, 2, 3):
        steps += [(np.array(d["a"], float), np.array(d["b"], float)) for d in emitted(ctx, "Shapes", "Shapes.cfg", dict(KIND="step", NN=str(n), MM="1"))]
    for n in (1, 2, 3) if ctx.quick else (1, 2, 3, 4, 5):
        vecs += [(np.array(d["a"], float), np.array(d["b"], float)) for d in emitted(ctx, "Shapes", "Shapes.cfg", dict(KIND="vec", NN=str(n), MM="1"))]
    names = ["h_setup", "h_transpose", "h_dense", "h_mul", "h_obj", "h_residuals", "innerproduct", "updatevariables", "checksign", "findsteplength", "formrho", "formlambda", "form_ds", "updatekktmatrix_b", "norm", "findminmax"]
    B.lacks(ctx, *names); none = not any(getattr(B, x) for x in names)
    def go(R):
        c = Calls(R, B, r)
        for M in mats:
            V = np.where(M != 0, 1 + np.arange(M.size).reshape(M.shape) * 1.5 * (-1) ** np.arange(M.size).reshape(M.shape), 0.0)
            c.matrix(Csc.of(V)); c.dense(V)
        for a, b in steps:
            k = int(r.integers(len(steps))); s2, d2 = steps[k]
            if len(s2) != len(a): s2, d2 = pos(r, len(a)), vals(r, len(a))
            c.steps(a, b, s2, d2)
        for a, b in vecs: c.vectors(a, b)
        for n in (0,): c.vectors(np.zeros(0), np.zeros(0)); c.steps(np.zeros(0), np.zeros(0), np.zeros(0), np.zeros(0))
        for i in range(ctx.n(250, 4000)):
            m, n = int(r.integers(1, 12)), int(r.integers(1, 12))
            if i % 4 == 0: m = n
            M = vals(r, m * n).reshape(m, n); M[r.random((m, n)) > (0.2, 0.6, 1.0)[i % 3]] = 0.0
            z = [tuple(int(v) for v in w) for w in np.argwhere(M == 0) if r.random() < 0.2] if i % 3 else []
            c.matrix(Csc.of(M, z, r if i % 5 == 0 else None)); c.dense(M)
            k = int(r.integers(1, 20)); c.vectors(vals(r, k), vals(r, k))
            s, ds = pos(r, k), vals(r, k)
            if i % 4 == 0: ds = -s * r.choice([1.0, 0.5, 2.0, -1.0], size=k)
            if i % 7 == 0: ds = -s * 10.0 ** -r.uniform(9, 11, k)
            c.steps(s, ds, pos(r, k), vals(r, k))
        for k in range(20, ctx.n(150, 300)):                        # every length
            c.vectors(vals(r, k), vals(r, k))
            for at in (k - 1, int(r.integers(k)), 0)[:1 + k % 3]:     # one entry decides: the last, the first, any
                s, z, ds, dz = pos(r, k), pos(r, k), r.random(k), r.random(k); ds[at] = -3 * s[at]; dz[(at + k // 2) % k if k % 2 else at] = -5 * z[at]
                c.steps(s, ds, z, dz)
        for e in (256, 512, 1024, 2048, 4096, 8192):                 # round the powers of two, and long ones anywhere
            for k in [e + d for d in ((-1, 0, 1) if e < 2048 or not ctx.quick else (0,))] + [int(r.integers(e // 2, e)) for _ in range(ctx.n(2, 20))]:
                x, y = vals(r, k), vals(r, k)
                if k % 2: x[-1] = 1e9 * r.choice([-1, 1])
                c.vectors(x, y)
                s, z, ds, dz = pos(r, k), pos(r, k), r.random(k), r.random(k); at = (k - 1, 0, int(r.integers(k)))[k % 3]; ds[at] = -3 * s[at]; dz[(k - 1, k // 2)[k // 3 % 2]] = -5 * z[(k - 1, k // 2)[k // 3 % 2]]
                c.steps(s, ds, z, dz)
                if k < 2100:
                    for m, n in ((k, int(r.integers(1, 4))), (int(r.integers(1, 4)), k)):
                        M = vals(r, m * n, 0).reshape(m, n); M[r.random((m, n)) > (0.3, 1.0)[k % 2]] = 0.0
                        c.matrix(Csc.of(M)); c.dense(M)
        for L in gen.strata(r, ctx.n(40, 130), 12, 140):              # one long dimension
            for m, n in ((L, int(r.integers(1, 5))), (int(r.integers(1, 5)), L)) + (((L, L),) if L % 4 == 0 else ()):
                M = vals(r, m * n, 0).reshape(m, n); M[r.random((m, n)) > (0.1 if m == n else (0.2, 0.6, 1.0)[L % 3])] = 0.0
                c.matrix(Csc.of(M, rng=r if L % 5 == 0 else None)); c.dense(M)
        for q in gen.special() + gen.suite(r, ctx.n(100, 1500), 6, ctx.n(5, 50)) + gen.sweep(r, ctx.n(129, 800)) + gen.giants(r, ctx.n(8, 60)): c.residuals(lib, q)
    if none: return
    ctx.both("Helpers", go, what="calls of the building blocks")
