"""ctypes driver for the library under test (through harness/shim.c)."""
import ctypes as C, numpy as np
L, D = C.c_long, C.c_double
PL, PD = C.POINTER(L), C.POINTER(D)

def dens2ccs(M, order=None, zeros=(), rng=None):
    """Dense (m,n) -> jc, ir, pr.  zeros: extra explicitly stored positions."""
    m, n = M.shape
    jc, ir, pr = [0], [], []
    zs = set(zeros)
    for j in range(n):
        rows = [i for i in range(m) if M[i, j] != 0 or (i, j) in zs]
        if rng is not None: rng.shuffle(rows)
        ir += rows; pr += [M[i, j] for i in rows]; jc.append(len(ir))
    return (np.array(jc, dtype=np.int64), np.array(ir if ir else [0], dtype=np.int64), np.array(pr if pr else [0.0], dtype=np.float64))

class Lib:
    def __init__(self, path):
        l = self.l = C.CDLL(path)
        V = C.c_void_p
        l.v_setup.restype = V; l.v_setup.argtypes = [L, L, L] + [V] * 12 + [D, V]
        l.v_setup_dense.restype = V; l.v_setup_dense.argtypes = [L, L, L] + [V] * 7 + [C.c_int]
        l.v_solve.restype = L; l.v_solve.argtypes = [V]
        for f in ("v_cleanup", "v_cleanup_dense"): getattr(l, f).argtypes = [V]; getattr(l, f).restype = None
        l.v_setopt.argtypes = [V, L, D, D, D, L]; l.v_setopt.restype = None
        l.v_set_sigma_d.argtypes = [V, D]; l.v_set_sigma_d.restype = None
        for f in ("v_getopt", "v_dims", "v_perm"): getattr(l, f).argtypes = [V, V]; getattr(l, f).restype = None
        l.v_stats.argtypes = [V, V, V]; l.v_stats.restype = None
        l.v_vecs.argtypes = [V] * 5; l.v_vecs.restype = None
        l.v_setvecs.argtypes = [V] * 5; l.v_setvecs.restype = None
        l.v_mat_dims.argtypes = [V, C.c_int, V]; l.v_mat_jc.argtypes = [V, C.c_int, V]; l.v_mat_get.argtypes = [V, C.c_int, V, V]
        l.v_default.restype = D; l.v_default.argtypes = [C.c_int]
        l.v_perm_ptr.restype = V; l.v_perm_ptr.argtypes = [V]
        self.ROW, self.COL = int(l.v_default(9)), int(l.v_default(10))

def _p(a):
    return None if a is None else a.ctypes.data

class Problem:
    """min 1/2 x'Px+c'x  s.t. Gx<=h, Ax=b; dense numpy arrays."""
    def __init__(self, P, c, G, h, A=None, b=None, name="", **meta):
        f = lambda a: np.array(a, dtype=np.float64)
        self.P, self.c, self.G, self.h = f(P), f(c), f(G), f(h)
        self.A = f(A) if A is not None else np.zeros((0, len(self.c)))
        self.b = f(b) if b is not None else np.zeros(0)
        self.n, self.m, self.p = len(self.c), len(self.h), len(self.b)
        assert self.P.shape == (self.n, self.n) and self.G.shape == (self.m, self.n) and self.A.shape == (self.p, self.n), name
        self.name, self.meta = name, meta

class Obj:
    """One solver object; keeps every input array alive."""
    def __init__(self, lib, pr, fmt="sparse", perm=None, sigma_d=0.0, rng=None, zeros=None, nulls=(), p=None, arrays=None):
        self.lib, self.l, self.pr, self.fmt = lib, lib.l, pr, fmt
        z = zeros or {}
        self.perm = None if perm is None else np.array(perm, dtype=np.int64)
        self.c, self.h, self.b = pr.c.copy(), pr.h.copy(), pr.b.copy()
        if len(self.b) == 0: self.b = np.zeros(1)
        p = pr.p if p is None else p
        useA = pr.p > 0 or p > 0
        if fmt == "sparse":
            self.Pa = dens2ccs(pr.P, zeros=z.get("P", ()), rng=rng)
            self.Ga = dens2ccs(pr.G, zeros=z.get("G", ()), rng=rng)
            self.Aa = dens2ccs(pr.A, zeros=z.get("A", ()), rng=rng) if useA else (None,) * 3
            a = list(self.Aa)
            for i, k in enumerate(("Ajc", "Air", "Apr")):
                if k in nulls: a[i] = None
            b = None if ("b" in nulls or not useA) else self.b
            self.q = self.l.v_setup(pr.n, pr.m, p, *[_p(v) for v in self.Pa], *[_p(v) for v in a], *[_p(v) for v in self.Ga],
                                    _p(self.c), _p(self.h), _p(b), sigma_d, _p(self.perm))
        else:
            order = "C" if fmt == "row" else "F"
            self.Pa = (np.asarray(pr.P, order=order).ravel(order=order).copy(),)
            self.Ga = (np.asarray(pr.G, order=order).ravel(order=order).copy(),)
            self.Aa = (np.asarray(pr.A, order=order).ravel(order=order).copy() if pr.p else np.zeros(1),)
            A = None if ("Apr" in nulls or not useA) else self.Aa[0]
            b = None if ("b" in nulls or not useA) else self.b
            self.q = self.l.v_setup_dense(pr.n, pr.m, p, _p(self.Pa[0]), _p(A), _p(self.Ga[0]), _p(self.c), _p(self.h), _p(b), _p(self.perm),
                                          lib.ROW if fmt == "row" else lib.COL)
    def opts(self):
        o = np.zeros(6); self.l.v_getopt(self.q, _p(o)); return dict(maxit=int(o[0]), reltol=o[1], abstol=o[2], sigma=o[3], verbose=int(o[4]), sigma_d=o[5])
    def setopt(self, **kw):
        o = self.opts(); sd = kw.pop("sigma_d", None); o.update(kw)
        self.l.v_setopt(self.q, int(o["maxit"]), o["reltol"], o["abstol"], o["sigma"], int(o["verbose"]))
        if sd is not None: self.l.v_set_sigma_d(self.q, sd)
    def solve(self): return self.l.v_solve(self.q)
    def dims(self):
        d = np.zeros(3, dtype=np.int64); self.l.v_dims(self.q, _p(d)); return [int(v) for v in d]
    def stats(self):
        f = np.zeros(11); k = np.zeros(3, dtype=np.int64); self.l.v_stats(self.q, _p(f), _p(k))
        d = dict(zip("tsetup tsolve tkkt tldl nrx nry nrz nmu ap ad fval".split(), f)); d.update(iter=int(k[0]), flag=int(k[1]), amd=int(k[2])); return d
    def vecs(self):
        n, m, p = self.dims()
        x, y, z, s = np.zeros(n), np.zeros(max(p, 1)), np.zeros(m), np.zeros(m)
        self.l.v_vecs(self.q, _p(x), _p(y), _p(z), _p(s)); return x, y[:p], z, s
    def setvecs(self, x, y, z, s):
        a = [np.array(v, dtype=np.float64) for v in (x, y if len(y) else [0.0], z, s)]
        self.l.v_setvecs(self.q, *[_p(v) for v in a])
    def mat(self, w):
        d = np.zeros(3, dtype=np.int64)
        if not self.l.v_mat_dims(self.q, w, _p(d)): return None
        m, n, nnz = [int(v) for v in d]
        jc = np.zeros(n + 1, dtype=np.int64); self.l.v_mat_jc(self.q, w, _p(jc))
        k = max(int(jc[n]), 1); ir = np.zeros(k, dtype=np.int64); pr = np.zeros(k); self.l.v_mat_get(self.q, w, _p(ir), _p(pr))
        return dict(m=m, n=n, nnz=nnz, jc=jc.tolist(), ir=ir[:jc[n]].tolist(), pr=pr[:jc[n]].tolist())
    def perm_used(self):
        n, m, p = self.dims(); a = np.zeros(n + m + p, dtype=np.int64); self.l.v_perm(self.q, _p(a)); return a.tolist()
    def cleanup(self):
        (self.l.v_cleanup if self.fmt == "sparse" else self.l.v_cleanup_dense)(self.q); self.q = None
