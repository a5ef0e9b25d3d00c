"""C17: factorisation and triangular solves."""
import itertools
import numpy as np
from . import gen, qp, enc, blocks
from .blocks import Csc, I, D, zi, zd, clip
from .checks_blocks import emitted

def ints(a): return [clip(v) for v in a]
class Fact:
    """One matrix: symbolic, numeric, solves, partial refactorisations."""
    def __init__(self, B, r, M, P, pattern=None, rng=None, nslack=0, dup=False):
        """M dense symmetric; pattern: stored positions; last nslack rows are the ones whose diagonal changes."""
        self.B, self.r, self.n = B, r, M.shape[0]; n = self.n
        st = np.argwhere(M != 0) if pattern is None else pattern
        self.zeros = [tuple(int(v) for v in w) for w in st]
        self.rng, self.dup = rng, dup
        self.M = M; self.P = None if P is None else I(P); self.ops = []; self.nslack = nslack
        self.A = self.csc(M)
        self.case = dict(n=n, P=[] if P is None else ints(P), M=self.A.rec(), ops=self.ops)
    def csc(self, M):
        g = None if self.rng is None else np.random.default_rng(self.rng)
        return Csc.of(M, self.zeros, g, self.r if self.dup else None)
    def pp(self): return None if self.P is None else self.P.p
    def pi(self): return None if self.P is None else self.Pinv.p
    def run(self):
        B, n, A = self.B, self.n, self.A
        self.Lp, self.Parent, self.Lnz, self.Flag, self.Pinv = zi(n + 1), zi(n), zi(n), zi(n), zi(n)
        B.LDL_symbolic(n, A.jc.p, A.ir.p, self.Lp.p, self.Parent.p, self.Lnz.p, self.Flag.p, self.pp(), self.pi())
        kept = A.kept() and (self.P is None or self.P.kept()) and all(b.guarded() for b in (self.Lp, self.Parent, self.Lnz, self.Flag, self.Pinv))
        self.ops.append(dict(op="symbolic", Parent=ints(self.Parent.v), Lnz=ints(self.Lnz.v), Lp=ints(self.Lp.v), Pinv=ints(self.Pinv.v), kept=kept))
        lnz = int(self.Lp.v[n])
        if not (0 <= lnz <= n * n) or not kept: return self.case
        self.lnz = lnz
        f = self.numeric(A, "LDL_numeric")
        if f is None: return self.case
        Li, Lx, Dv = f
        self.solves(Li, Lx, Dv)
        if not B.Transpose_Row_Count: return self.case
        Lti, Ltp = zi(lnz), zi(n + 1); B.Transpose_Row_Count(n, n, Li.p, self.Lp.p, Lti.p, Ltp.p)
        self.ops.append(dict(op="rows", Lti=ints(Lti.v), Ltp=ints(Ltp.v)))
        # partial refactorisation after the diagonal of the last nslack rows changed
        if self.nslack:
            m = self.nslack; U = I(np.zeros(n))
            if B.test_reach and self.P is not None:
                B.test_reach(self.Parent.p, self.Pinv.p, U.p, n - m, m, 0)
                self.ops.append(dict(op="reach", U=ints(U.v), **{"from": n - m}, kept=bool(U.guarded())))
            else:
                U = I(np.full(n, n))
            M1 = self.M.copy()
            for i in range(n - m, n): M1[i, i] = -10.0 ** self.r.uniform(-3, 3)
            A1 = self.csc(M1)
            for name in ("LDL_cache_numeric", "LDL_row_cache_numeric"):
                for U1 in (U, I(np.full(n, n))):
                    self.cached(name, A1, Li, Lx, Dv, Lti, Ltp, U1)
            # a run of refactorisations in place, one workspace for all, as an iteration would use them
            Lx2, D2, Y = D(Lx.v.copy()), D(Dv.v.copy()), self.Y
            for k in range(3):
                M2 = self.M.copy()
                for i in range(n - m, n): M2[i, i] = -10.0 ** self.r.uniform(-3, 3)
                if not self.cached(("LDL_cache_numeric", "LDL_row_cache_numeric")[int(self.r.integers(2))], self.csc(M2), Li, Lx2, D2, Lti, Ltp, (U, I(np.full(n, n)))[int(self.r.integers(3) == 0)], Y): break
        return self.case
    def factor(self, name, A, Li, Lx, Dv, ret, kept):
        self.ops.append(dict(op="numeric", name=name, M=A.rec(), Li=ints(Li.v[:self.lnz]), Lp=ints(self.Lp.v), Lx=enc.v(Lx.v[:self.lnz]), D=enc.v(Dv.v), ret=clip(ret), kept=bool(kept)))
    def numeric(self, A, name):
        B, n, lnz = self.B, self.n, self.lnz
        Li, Lx, Dv, Y, Pat, Fl, Ln = zi(lnz), zd(lnz), zd(n), zd(n), zi(n), zi(n), zi(n)
        par = self.Parent.v.copy(); lp = self.Lp.v.copy()
        ret = B.LDL_numeric(n, A.jc.p, A.ir.p, A.pr.p, self.Lp.p, self.Parent.p, Ln.p, Li.p, Lx.p, Dv.p, Y.p, Pat.p, Fl.p, self.pp(), self.pi())
        kept = A.kept() and all(b.guarded() for b in (Li, Lx, Dv, Y, Pat, Fl, Ln)) and np.array_equal(par, self.Parent.v) and np.array_equal(lp, self.Lp.v)
        self.factor(name, A, Li, Lx, Dv, ret, kept); self.Y = Y
        return (Li, Lx, Dv) if kept else None
    def cached(self, name, A, Li, Lx, Dv, Lti, Ltp, U, Y=None):
        fn = getattr(self.B, name)
        if fn is None: return
        n, lnz = self.n, self.lnz; where = "" if Y is None else " in place"
        Lx2, D2, Y = (D(Lx.v.copy()), D(Dv.v.copy()), D(np.zeros(n))) if Y is None else (Lx, Dv, Y)
        Li2 = I(np.append(Li.v.copy(), n + 7)); Lt2, Ltp2 = I(Lti.v.copy()), I(Ltp.v.copy()); U2 = I(U.v.copy())
        ret = fn(n, A.jc.p, A.ir.p, A.pr.p, Ltp2.p, Lt2.p, Li2.p, self.Lp.p, Lx2.p, D2.p, Y.p, self.pp(), self.pi(), U2.p)
        kept = A.kept() and Li2.kept() and Lt2.kept() and Ltp2.kept() and U2.kept() and all(b.guarded() for b in (Lx2, D2, Y))
        self.factor(name + (" (all)" if np.all(U.v == n) else " (partial)") + where, A, Li2, Lx2, D2, ret, kept)
        return kept
    def solves(self, Li, Lx, Dv):
        B, n, r = self.B, self.n, self.r
        F = dict(Lp=ints(self.Lp.v), Li=ints(Li.v), Lx=enc.v(Lx.v), D=enc.v(Dv.v))
        for what in ("lsolve", "dsolve", "ltsolve", "perm", "permt"):
            if getattr(B, "LDL_" + what) is None: continue
            b = r.normal(size=n) * 10.0 ** r.integers(-2, 3, size=n); X = D(b); kept = True
            if what == "lsolve": B.LDL_lsolve(n, X.p, self.Lp.p, Li.p, Lx.p)
            elif what == "ltsolve": B.LDL_ltsolve(n, X.p, self.Lp.p, Li.p, Lx.p)
            elif what == "dsolve": B.LDL_dsolve(n, X.p, Dv.p)
            else:
                if self.P is None: continue
                src = D(b); X = zd(n); (B.LDL_perm if what == "perm" else B.LDL_permt)(n, X.p, src.p, self.P.p); kept = src.kept() and self.P.kept()
            self.ops.append(dict(op="solve", what=what, b=enc.v(b), x=enc.v(X.v), kept=bool(kept and X.guarded()), **F))

def states(c): return len(c["ops"]) + 2
def kktish(r, q):
    """A KKT matrix with positive s/z."""
    n, m, p = q.n, q.m, q.p
    d = 10.0 ** r.uniform(-3, 3, m)
    Z = np.zeros
    K = np.block([[q.P, q.A.T, q.G.T], [q.A, Z((p, p)), Z((p, m))], [q.G, Z((m, p)), -np.diag(d)]])
    return K
def validity(B, r):
    ops = []
    for n in range(0, 4):
        for p in itertools.product(range(-1, n + 1), repeat=n):
            P, F = I(np.array(p, dtype=np.int64)), I(np.full(max(n, 1), 99))
            ops.append(dict(op="perm", nn=n, p=list(p), null=False, flag=True, ret=clip(B.LDL_valid_perm(n, P.p, F.p))))
    for n in (-1, 0, 2):
        P, F = I([0, 1]), I([7, 7])
        for pn in (False, True):
            for fl in (False, True):
                ops.append(dict(op="perm", nn=n, p=[0, 1], null=pn, flag=fl, ret=clip(B.LDL_valid_perm(n, None if pn else P.p, F.p if fl else None))))
    for n in (1, 2):
        for Ap in itertools.product(range(-1, 4), repeat=n + 1):
            for Ai in itertools.product((-1, 0, 1, 2), repeat=2):
                if max(Ap) > 2: Ai = Ai + (0,)
                a, b = I(np.array(Ap)), I(np.array(Ai))
                ops.append(dict(op="matrix", nn=n, Ap=list(Ap), Ai=list(Ai), nullp=False, nulli=False, ret=clip(B.LDL_valid_matrix(n, a.p, b.p))))
    for n in (-1, 0, 1):
        for x in (False, True):
            for y in (False, True):
                a, b = I([0, 1]), I([0])
                ops.append(dict(op="matrix", nn=n, Ap=[0, 1], Ai=[0], nullp=x, nulli=y, ret=clip(B.LDL_valid_matrix(n, None if x else a.p, None if y else b.p))))
    return [dict(n=0, P=[], M=[], ops=ops[i:i + 200]) for i in range(0, len(ops), 200)]

def C17(ctx):
    lib = ctx.lib(); B = blocks.Blocks(lib); r = ctx.rng()
    valid = not B.lacks(ctx, "LDL_valid_perm", "LDL_valid_matrix"); B.lacks(ctx, "LDL_lsolve", "LDL_dsolve", "LDL_ltsolve", "LDL_perm", "LDL_permt", "LDL_cache_numeric", "LDL_row_cache_numeric", "test_reach", "Transpose_Row_Count")
    if B.lacks(ctx, "LDL_symbolic", "LDL_numeric"): return
    graphs = []
    for n in (1, 2, 3, 4) if ctx.quick else (1, 2, 3, 4, 5):
        graphs += [(n, d["E"]) for d in emitted(ctx, "LDLModel", "LDLModel.cfg", dict(NN=str(n)))]
    def sym(n, E, diag):
        M = np.zeros((n, n)); pos = [(i, i) for i in range(n)]
        for i, j in E: M[i-1, j-1] = M[j-1, i-1] = r.choice([1.0, -1.0, 0.5, 2.0, r.normal()]); pos += [(i-1, j-1), (j-1, i-1)]
        if diag == 0: M += np.diag(n + r.random(n))                 # definite
        elif diag == 1: M += np.diag(r.choice([-1.0, 1.0], size=n) * (1 + r.random(n)))
        elif diag == 2: M += np.diag(r.choice([0.0, 0.0, 1.0, -1.0], size=n))     # vanishing pivots
        elif diag == 3: M += np.diag(r.choice([1e-15, -1e-15, 1e-13, -1e-13, 0.0, 2.0], size=n))
        else: pos = [p for p in pos if p[0] != p[1]]                # no stored diagonal
        return M, np.array(pos, dtype=int).reshape(-1, 2)
    def go(R):
        for i, (n, E) in enumerate(graphs):
            for k in range(2):
                M, pos = sym(n, E, (i + 2 * k) % 5)
                P = r.permutation(n) if k else None
                R.begin("graph %s perm %s %s" % (E, P, M.tolist()))
                c = Fact(B, r, M, P, pos, rng=i if i % 4 == 0 else None, nslack=int(r.integers(1, n + 1)) if (i + 2 * k) % 5 != 4 else 0).run()
                R.put(c, states(c))
        for i in range(ctx.n(150, 3000)):
            n = int(r.integers(1, 10)); M, pos = sym(n, [(a + 1, b + 1) for a in range(n) for b in range(a) if r.random() < (0.2, 0.5, 0.9)[i % 3]], i % 5)
            P = r.permutation(n) if i % 3 else None
            R.begin("random n=%d" % n); c = Fact(B, r, M, P, pos, rng=i if i % 4 == 0 else None, nslack=int(r.integers(1, n + 1)) if i % 5 != 4 else 0).run(); R.put(c, states(c))
        for i in range(ctx.n(120, 2000)):                             # entries given in several parts: they add up
            n = int(r.integers(1, 7)); M, pos = sym(n, [(a + 1, b + 1) for a in range(n) for b in range(a) if r.random() < (0.3, 0.7)[i % 2]], i % 2)
            R.begin("duplicates n=%d" % n); c = Fact(B, r, M, r.permutation(n) if i % 3 else None, pos, dup=True).run(); R.put(c, states(c))
        for i, q in enumerate(gen.special() + gen.suite(r, ctx.n(100, 1500), 5, ctx.n(2, 20))):
            K = kktish(r, q); N = len(K); P = r.permutation(N) if i % 4 else None
            R.begin("kkt " + q.name); c = Fact(B, r, K, P, None, nslack=q.m).run(); R.put(c, states(c))
        for i, q in enumerate(gen.sweep(r, ctx.n(16, 60), 30, 110) + [gen.sized(r, *s) for s in ((120, 127, 4), (3, 258, 1)) * ctx.n(1, 4)]):       # and one longer than any index that fits a byte
            K = kktish(r, q); N = len(K); P = (None if i % 3 else r.permutation(N)) if N < 80 else np.concatenate([r.permutation(q.n), q.n + np.arange(q.p), q.n + q.p + r.permutation(q.m)])
            R.begin("kkt " + q.name); c = Fact(B, r, K, P, None, nslack=q.m).run(); R.put(c, states(c))
        for c in validity(B, r) if valid else (): R.begin("validity"); R.put(c, len(c["ops"]) + 1)
    ctx.both("LDL", go, what="factorisations")
