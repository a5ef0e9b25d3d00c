"""Calls to array-level functions of the library with guarded memory."""
import ctypes as C, numpy as np
from . import enc
PAD = 16
FILL_I, FILL_D = np.int64(0x5a5a5a5a5a5a5a), 1.2345e+77

class Buf:
    """An array with guard elements on both sides."""
    def __init__(self, a, dtype=None):
        a = np.array(a, dtype=dtype or (np.float64 if not isinstance(a, np.ndarray) else a.dtype))
        f = FILL_D if a.dtype == np.float64 else FILL_I
        self.all = np.full(len(a) + 2 * PAD, f, dtype=a.dtype); self.all[PAD:PAD + len(a)] = a
        self.n, self.fill = len(a), f
        self.before = self.all.copy()
    @property
    def v(self): return self.all[PAD:PAD + self.n]
    @property
    def p(self): return C.c_void_p(self.all.ctypes.data + 8 * PAD)
    def kept(self): return self.all.tobytes() == self.before.tobytes()          # nothing written at all
    def guarded(self):
        a, b = self.all.copy(), self.before.copy(); a[PAD:PAD + self.n] = 0; b[PAD:PAD + self.n] = 0
        return a.tobytes() == b.tobytes()
def I(a): return Buf(np.array(a, dtype=np.int64))
def D(a): return Buf(np.array(a, dtype=np.float64))
def zi(n): return I(np.full(n, FILL_I))
def zd(n): return D(np.full(n, FILL_D))

class Csc:
    """A compressed-column matrix in guarded buffers."""
    def __init__(self, m, n, jc, ir, pr): self.m, self.n, self.jc, self.ir, self.pr = m, n, I(jc), I(ir), D(pr)
    @staticmethod
    def of(M, zeros=(), rng=None, dup=None):
        """dup: a generator: some entries are split over several positions of their column."""
        M = np.asarray(M, dtype=float); m, n = M.shape; zs = set(zeros); jc, ir, pr = [0], [], []
        for j in range(n):
            rows = [i for i in range(m) if M[i, j] != 0 or (i, j) in zs]
            if rng is not None: rng.shuffle(rows)
            col = [(i, M[i, j]) for i in rows]
            if dup is not None: col = [(i, v * f) for i, v in col for f in ((1.0,), (0.5, 0.5), (0.25, 0.75), (2.0, -1.0), (0.25, 0.5, 0.25))[int(dup.integers(5))]]; dup.shuffle(col)
            ir += [int(i) for i, _ in col]; pr += [float(v) for _, v in col]; jc.append(len(ir))
        return Csc(m, n, jc, ir, pr)
    @staticmethod
    def room(m, n, nnz): return Csc(m, n, np.full(n + 1, FILL_I), np.full(nnz, FILL_I), np.full(nnz, FILL_D))
    @property
    def args(self): return (self.jc.p, self.ir.p, self.pr.p)
    def kept(self): return self.jc.kept() and self.ir.kept() and self.pr.kept()
    def guarded(self): return self.jc.guarded() and self.ir.guarded() and self.pr.guarded()
    def rec(self, cap=None):
        jc = [clip(v) for v in self.jc.v]; k = min(max(jc[-1], 0), self.ir.n)
        return dict(m=self.m, n=self.n, cap=self.ir.n if cap is None else cap, jc=jc, ir=[clip(v) for v in self.ir.v[:k]], pr=enc.v(self.pr.v[:k]))
def clip(v): return int(max(-2**31, min(2**31 - 1, int(v))))
def dims(m): 
    return dict(m=m["m"], n=m["n"], cap=m["nnz"], jc=m["jc"], ir=m["ir"], pr=enc.v(m["pr"]))

L, DD, V = C.c_long, C.c_double, C.c_void_p
class Blocks:
    """ctypes signatures of the functions; absent ones (not exported by the tree under test) are None."""
    def __init__(self, lib):
        from . import build
        self.l = l = lib.l; gone = self.gone = build.missing()
        def f(name, res, *args):
            g = None if name in gone else getattr(l, name, None)
            if g: g.restype = res; g.argtypes = list(args)
            setattr(self, name, g)
        f("h_setup", None, L, L, L, V, V, V, V, V); f("h_transpose", None, L, L, V, V, V, V, V, V)
        f("h_dense", V, C.c_int, L, L, V); f("h_sp_dims", None, V, V); f("h_sp_get", None, V, V, V, V); f("h_sp_free", None, V)
        f("h_mul", None, C.c_int, L, L, V, V, V, V, V, L); f("h_obj", DD, L, V, V, V, V, V, V)
        f("h_kkt", None, C.c_int, L, L, L, *[V] * 15, *[V] * 3, L)
        f("h_update", None, L, V, V, V, V, V, V, V, DD, DD, L, L, L, L)
        f("h_residuals", None, V, V, V, V, V); f("h_selector", L, C.c_int)
        f("Transpose_Row_Count", None, L, L, V, V, V, V)
        f("norm", DD, V, L); f("innerproduct", DD, V, V, L); f("findminmax", None, V, L, V, V); f("updatevariables", None, V, V, DD, L)
        f("findsteplength", None, V, V, V, V, L, V, V); f("checksign", L, V, V, DD, L); f("formrho", DD, V, V, V, V, DD, DD, L)
        f("form_ds", None, V, V, V, V, DD, DD, L, L); f("updatekktmatrix_b", None, *[V] * 6, L, L, L); f("formlambda", None, V, V, V, L)
        f("LDL_symbolic", None, L, *[V] * 8); f("LDL_numeric", L, L, *[V] * 14); f("LDL_cache_numeric", L, L, *[V] * 13); f("LDL_row_cache_numeric", L, L, *[V] * 13)
        f("LDL_lsolve", None, L, V, V, V, V); f("LDL_dsolve", None, L, V, V); f("LDL_ltsolve", None, L, V, V, V, V); f("LDL_perm", None, L, V, V, V); f("LDL_permt", None, L, V, V, V)
        f("LDL_valid_perm", L, L, V, V); f("LDL_valid_matrix", L, L, V, V); f("test_reach", None, V, V, V, L, L, L)
    def lacks(self, ctx, *names):
        """Are any of these not there to be judged?"""
        n = [x for x in names if getattr(self, x) is None]
        if n and n not in ctx.told: ctx.told.append(n); ctx.notes.append("not exported with their types, not judged: " + ", ".join(n))
        return bool(n)
    def transpose(self, A):
        T = Csc.room(A.n, A.m, A.ir.n); self.h_transpose(A.m, A.n, *A.args, *T.args); return T
