"""Problem families.  Every choice comes from the rng that is passed in."""
import numpy as np
from .qp import Problem

def _sp(rng, m, n, dens, kind="n"):
    M = rng.normal(size=(m, n)) if kind == "n" else rng.integers(-3, 4, size=(m, n)).astype(float)
    M[rng.random((m, n)) >= dens] = 0.0
    return M

def kktqp(rng, n, m, p, rank=None, dens=0.6, kind="n", nact=None, emptyG=0, weak=0, cond=1.0, name="kkt"):
    """QP with a known unique strictly complementary optimum (weak>0: some active constraints get a zero multiplier)."""
    for _ in range(200):
        rank_ = n if rank is None else rank
        M = _sp(rng, n, rank_, max(dens, 0.5), "n") if rank_ else np.zeros((n, 0))
        P = M @ M.T * cond
        if rank is None: P = P + 0.1 * np.eye(n) * cond
        P = (P + P.T) / 2
        A = _sp(rng, p, n, dens, kind)
        G = _sp(rng, m, n, dens, kind)
        for i in range(emptyG): G[rng.integers(m)] = 0.0
        x = rng.normal(size=n)
        k = min(m, n - p)
        na = (n - p - rank_ if n - p - rank_ > 0 else 0) if rank is not None else 0
        na = max(na, int(rng.integers(0, k + 1)) if k > 0 else 0) if nact is None else nact
        if rank is not None and rank < n: na = max(na, min(n - p, n - rank))
        if na > k: continue
        rows = [i for i in range(m) if np.any(G[i])]
        if len(rows) < na: continue
        act = rng.choice(rows, size=na, replace=False) if na else np.zeros(0, dtype=int)
        act = act.astype(int)
        B = np.vstack([A, G[act]])
        if len(B) and (np.linalg.matrix_rank(B) < len(B) or np.linalg.svd(B, compute_uv=False)[-1] < 0.15): continue
        Z = np.linalg.svd(B)[2][len(B):].T if len(B) else np.eye(n)
        if Z.shape[1] and np.linalg.eigvalsh(Z.T @ P @ Z)[0] < 0.02: continue
        z = np.zeros(m); s = 0.3 + 2 * rng.random(m)
        s[act] = 0; z[act] = 0.3 + 2 * rng.random(na)
        for i in act[:weak]: z[i] = 0.0
        y = rng.normal(size=p)
        c = -(P @ x + G.T @ z + A.T @ y)
        return Problem(P, c, G, G @ x + s, A, A @ x, name=f"{name}-n{n}m{m}p{p}", x=x, z=z, y=y, s=s, solvable=True)
    return None

def boxqp(rng, n, dens=0.4):
    M = _sp(rng, n, n, dens); P = M @ M.T + 0.5 * np.eye(n)
    return Problem(P, rng.normal(size=n) * 3, np.vstack([np.eye(n), -np.eye(n)]), np.ones(2 * n), name=f"box-{n}", solvable=True)

def portfolio(rng, n):
    F = rng.normal(size=(n, max(1, n // 3))); P = F @ F.T + np.diag(0.1 + rng.random(n))
    return Problem(P, -rng.random(n), -np.eye(n), np.zeros(n), np.ones((1, n)), [1.0], name=f"portfolio-{n}", solvable=True)

def mpc(rng, N, nx=2, nu=1):
    """Banded control problem: states and inputs over a horizon."""
    A_ = np.array([[1, 0.2], [0, 1.0]])[:nx, :nx]; B_ = np.array([[0.02], [0.2]])[:nx]
    nv = N * (nx + nu); P = np.zeros((nv, nv)); c = np.zeros(nv)
    A = np.zeros((N * nx, nv)); b = np.zeros(N * nx)
    x0 = rng.normal(size=nx) * 0.3
    for k in range(N):
        o = k * (nx + nu)
        P[o:o+nu, o:o+nu] = 0.1 * np.eye(nu); P[o+nu:o+nu+nx, o+nu:o+nu+nx] = np.diag(1 + rng.random(nx))
        A[k*nx:(k+1)*nx, o:o+nu] = -B_; A[k*nx:(k+1)*nx, o+nu:o+nu+nx] = np.eye(nx)
        if k: A[k*nx:(k+1)*nx, o-nx:o] = -A_
        else: b[:nx] = A_ @ x0
    G = np.zeros((2 * N, nv)); h = np.ones(2 * N)
    for k in range(N):
        G[2*k, k*(nx+nu)] = 1; G[2*k+1, k*(nx+nu)] = -1
    return Problem(P, c, G, h, A, b, name=f"mpc-{N}", solvable=True)

def lp(rng, n, m, p=0):
    return kktqp(rng, n, m, p, rank=0, nact=n - p, name="lp", dens=0.8)

def infeasible(rng, n, m):
    q = kktqp(rng, n, m, 0)
    G = np.vstack([q.G, np.ones((1, n)), -np.ones((1, n))]); h = np.append(q.h, [-1.0, -1.0])
    return Problem(q.P, q.c, G, h, name="infeasible", solvable=False)

def infeasible_eq(rng, n, m):
    q = kktqp(rng, n, m, 0)
    A = np.vstack([np.ones((1, n)), np.ones((1, n))])
    return Problem(q.P, q.c, q.G, q.h, A, [0.0, 1.0], name="infeasible-eq", solvable=False)

def unbounded(rng, n, m):
    G = -np.abs(_sp(rng, m, n, 0.7)); 
    return Problem(np.zeros((n, n)), -np.ones(n), G, np.ones(m), name="unbounded", solvable=False)

def special():
    """Hand-picked corner shapes."""
    I = np.eye
    out = [
        Problem([[1.0]], [1.0], [[1.0]], [5.0], name="n1m1-inactive", x=[-1.0], solvable=True),
        Problem([[1.0]], [-10.0], [[1.0]], [5.0], name="n1m1-active", x=[5.0], solvable=True),
        Problem([[0.0]], [1.0], [[-1.0]], [0.0], name="n1m1-lp", x=[0.0], solvable=True),
        Problem([[2.0]], [0.0], [[0.0]], [1.0], name="G-all-zero", x=[0.0], solvable=True),
        Problem(I(2), [1.0, -1.0], [[0.0, 0.0], [1.0, 1.0]], [1.0, 1.0], name="empty-first-row", x=[-1.0, 1.0], solvable=True),
        Problem(I(2), [-3.0, -1.0], [[1.0, 1.0], [0.0, 0.0]], [1.0, 2.0], name="empty-last-row", x=[1.5, -0.5], solvable=True),
        Problem(I(3), [-3.0, -1.0, 2.0], [[1.0, 1.0, 0], [0.0, 0.0, 0], [0, 0, -1.0]], [1.0, 2.0, 1.0], name="empty-mid-row", x=[1.5, -0.5, -1.0], solvable=True),
        Problem(np.diag([1.0, 4.0]), [-1.0, -4.0], [[0.0, 1.0]], [0.5], name="empty-col", x=[1.0, 0.5], solvable=True),
        Problem(I(2), [-1.0, -1.0], [[1.0, 1.0], [0.0, 0.0]], [10.0, 3.0], [[1.0, -1.0]], [0.5], name="eq-empty-row", x=[1.25, 0.75], solvable=True),
        Problem(I(2), [-1.0, -1.0], [[1.0, 0.0]] * 3, [0.5] * 3, name="duplicate-rows", x=[0.5, 1.0], solvable=True),
        Problem(I(3), [0.0, 0.0, 0.0], np.vstack([I(3), -I(3)]), [1.0] * 6, name="zero-cost", x=[0.0, 0, 0], solvable=True),
        Problem(I(3), [-1.0, -1.0, -1.0], np.vstack([I(3), -I(3)]), [1.0] * 6, name="weakly-active", x=[1.0, 1, 1], solvable=True),
        Problem(I(2), [0.0, 0.0], [[1.0, 0.0]], [-2.0], name="origin-infeasible", x=[-2.0, 0.0], solvable=True),
        Problem(np.zeros((2, 2)), [-1.0, -1.0], [[1.0, 0], [0, 1.0], [-1.0, 0], [0, -1.0]], [1.0, 2.0, 0, 0], name="lp-box", x=[1.0, 2.0], solvable=True),
        Problem([[1.0, 1.0], [1.0, 1.0]], [-1.0, -1.0], [[1.0, -1.0], [-1.0, 1.0], [-1.0, -1.0]], [0.0 + 0.25, 0.25, 0.0], name="singular-P", solvable=True),
        Problem(I(2), [0.0, 0.0], [[1.0, 0.0], [0.0, 1.0]], [1.0, 1.0], [[1.0, 0.0], [0.0, 1.0]], [0.25, -0.5], name="eq-square", x=[0.25, -0.5], solvable=True),
        Problem(I(4), [1.0, 2, 3, 4], [[1.0, 1, 1, 1]], [-1.0], [[1.0, 1, 0, 0], [0, 0, 1, -1.0]], [1.0, 0.0], name="eq2", solvable=True),
    ]
    return out

def suite(rng, count, maxn=6, big=0):
    """A mixed list of solvable problems."""
    out = []
    while len(out) < count:
        k = len(out) % 10
        n = int(rng.integers(1, maxn + 1)); m = int(rng.integers(1, 2 * maxn)); p = int(rng.integers(0, max(1, n // 2) + 1)) if n > 1 else 0
        if k in (0, 1): q = kktqp(rng, n, m, 0)
        elif k in (2, 3): q = kktqp(rng, n, m, p)
        elif k == 4: q = kktqp(rng, n, m, p, kind="i", dens=0.5)
        elif k == 5: q = kktqp(rng, n, max(m, n), p, rank=max(0, n - 2))
        elif k == 6: q = lp(rng, n, max(m, n + 1), 0 if n == 1 else p)
        elif k == 7: q = boxqp(rng, n)
        elif k == 8: q = kktqp(rng, max(n, 2), m, 0, emptyG=1)
        else: q = kktqp(rng, n, m, p, weak=1)
        if q is not None: out.append(q)
    for i in range(big):
        k = i % 5
        if k == 0: q = kktqp(rng, 20 + int(rng.integers(20)), 30 + int(rng.integers(40)), int(rng.integers(8)), dens=0.15)
        elif k == 1: q = mpc(rng, 5 + int(rng.integers(12)))
        elif k == 2: q = boxqp(rng, 15 + int(rng.integers(25)), dens=0.1)
        elif k == 3: q = portfolio(rng, 15 + int(rng.integers(25)))
        else: q = kktqp(rng, 12, 60, 3, dens=0.9)
        if q is not None: out.append(q)
    return out

def nonfinite(rng, i):
    """A problem with data that are not numbers, infinite, or so large that the iteration overflows."""
    q = suite(rng, 1, 4)[0] if i % 4 else [q for q in special() if q.p][i // 4 % 3]
    q = Problem(q.P.copy(), q.c.copy(), q.G.copy(), q.h.copy(), q.A.copy(), q.b.copy(), name="nonfinite")
    bad = (np.nan, np.inf, -np.inf, 1e308, -1e200, 1e160)[int(rng.integers(6))]
    names = ["c", "h", "P", "G"] + (["A", "b"] if q.p else [])
    k = names[int(rng.integers(len(names)))]; M = getattr(q, k)
    if M.ndim == 1: M[int(rng.integers(len(M)))] = bad
    else:
        a, b = int(rng.integers(M.shape[0])), int(rng.integers(M.shape[1])); M[a, b] = bad
        if k == "P": M[b, a] = bad
    q.name = "nonfinite-%s-%s" % (k, bad); return q

def hugebound(rng, i):
    """A bound that stands for none."""
    q = suite(rng, 1, 5)[0]; k = 1 + i % 2
    G = np.vstack([q.G, rng.choice([-1.0, 0.0, 1.0], size=(k, q.n))]); h = np.append(q.h, 10.0 ** rng.uniform(9, 30, size=k) * rng.choice([1, 1, 1, -1], size=k))
    return Problem(q.P, q.c, G, h, q.A, q.b, name="hugebound")

def uneven(rng, i):
    """Slack and multiplier scales far apart, so that the first steps are short."""
    n, m = int(rng.integers(1, 6)), int(rng.integers(2, 11))
    q = None
    while q is None: q = kktqp(rng, n, m, int(rng.integers(0, 2)) if n > 1 else 0)
    h = q.h.copy(); k = i % 4
    if k in (0, 1): h[rng.random(m) < 0.5] += 10.0 ** rng.uniform(1, 3.5)
    if k in (1, 2): e = 10.0 ** rng.uniform(-2, 2, size=m); return Problem(q.P, q.c, q.G * e[:, None], h * e, q.A, q.b, name="uneven-scaled", solvable=k != 1 or None)
    if k == 3: return Problem(q.P, q.c * 10.0 ** rng.uniform(1, 3), q.G, h, q.A, q.b, name="uneven-cost")
    return Problem(q.P, q.c, q.G, h, q.A, q.b, name="uneven")

def squares(rng, i):
    """Square constraint matrices that are not symmetric: as many equalities, or inequalities, as variables."""
    n = int(rng.integers(2, 6)); k = i % 3
    while True:
        if k == 0: q = kktqp(rng, n, n, 0, dens=0.7)
        else:
            A = _sp(rng, n, n, 0.8); x = rng.normal(size=n)
            if np.linalg.cond(A) > 30: continue
            M = rng.normal(size=(n, n)); m = n if k == 1 else int(rng.integers(1, 6)); G = _sp(rng, m, n, 0.7)
            P = M @ M.T; q = Problem((P + P.T) / 2 + 0.1 * np.eye(n), rng.normal(size=n), G, G @ x + 0.3 + rng.random(m), A, A @ x, name="square", x=x, solvable=True)
        if q is not None: return q

def sized(rng, n, m, p, name="sized"):
    """A sparse problem of exactly this shape (p <= n) with a known optimum; the last or the first row is often active."""
    P = np.diag(0.5 + rng.random(n))
    for _ in range(n // 3):
        i, j = (int(v) for v in rng.integers(n, size=2))
        if i != j: P[i, j] = P[j, i] = rng.uniform(-0.1, 0.1)
    A, G = np.zeros((p, n)), np.zeros((m, n)); o = rng.permutation(n)
    for i in range(p):
        A[i, o[i]] = rng.choice([-1.0, 1.0]) * (1 + rng.random())
        if i + 1 < n: A[i, o[i + 1]] = rng.uniform(-0.5, 0.5)
    for i in range(m): G[i, rng.integers(n, size=2)] = rng.choice([-1.0, 1.0], size=2) * (0.5 + rng.random(2))
    k = int(rng.integers(6))
    if k == 0: G[:, int(rng.integers(n))] = rng.uniform(0.3, 1, size=m)
    if k == 1: G[int(rng.integers(m))] = rng.uniform(-0.5, 0.5, size=n)
    if k == 2 and p: A[int(rng.integers(p)), :] += rng.uniform(-0.1, 0.1, size=n)
    if k == 3: j = int(rng.integers(n)); v = rng.uniform(-0.05, 0.05, size=n); v[j] = 2 + 0.1 * n; P[j] = P[:, j] = v
    act = []
    for i in ([m - 1, 0] if rng.random() < 0.5 else [m - 1] if rng.random() < 0.7 else []) + [int(v) for v in rng.integers(m, size=2)]:
        B = np.vstack([A, G[act + [i]]])
        if i not in act and len(act) < n - p and np.linalg.svd(B, compute_uv=False)[-1] > 0.15: act.append(i)
    x, y, z, s = rng.normal(size=n), rng.normal(size=p), np.zeros(m), 0.3 + 2 * rng.random(m)
    z[act] = 0.3 + 2 * rng.random(len(act)); s[act] = 0.0
    return Problem(P, -(P @ x + G.T @ z + A.T @ y), G, G @ x + s, A, A @ x, name=f"{name}-n{n}m{m}p{p}", x=x, z=z, y=y, s=s, solvable=True)

def strata(rng, k, lo, top):
    """k whole numbers from lo..top, one from each of k equal parts (all of them, if k suffices)."""
    if k >= top - lo + 1: return list(range(lo, top + 1))
    e = np.linspace(lo, top + 1, k + 1)
    return [int(rng.integers(int(e[i]), max(int(e[i]) + 1, int(e[i + 1])))) for i in range(k)]

def sweep(rng, k, lo=8, top=136):
    """k problems one dimension of which (n, m, p, or their sum) runs through lo..top while the others stay small."""
    out = []
    for d in range(4):
        for L in strata(rng, k // 4 + (d < k % 4), lo, top) + ([int(rng.integers(256, 300))] if k >= 40 else []):       # and one beyond a byte
            a, b = int(rng.integers(1, 7)), int(rng.integers(0, 4))
            if d == 0: q = sized(rng, L, a, b)
            elif d == 1: q = sized(rng, max(a, b), L, b)
            elif d == 2: q = sized(rng, L + b, a, L)
            else: n = max(1, (L - a) // 2); p = min(n, b); q = sized(rng, n, max(1, L - n - p), p)
            out.append(q)
    return out

def giants(rng, k):
    """k problems one dimension of which is in the hundreds or thousands: round the powers of two, and anywhere between."""
    out = []; grid = [(d, e, off) for off in (1, 0, -1, 2) for e in (512, 1024, 256, 2048) for d in range(4)]
    for i in range(k):
        r = i // len(grid) * 5; d, e, off = grid[(i + r) % len(grid)] if i % 7 else (i // 7 % 4, 0, 0)
        L = e + off if e else int(rng.integers(256, 1100))
        a, b = int(rng.integers(1, 7)), int(rng.integers(0, 4))
        if d == 0: q = sized(rng, L, a, b, "giant")
        elif d == 1: q = sized(rng, max(a, b), L, b, "giant")
        elif d == 2: L = min(L, 600); q = sized(rng, L + b, a, L, "giant")
        else: n = max(1, (L - a) // 2); p = min(n, b); q = sized(rng, n, L - n - p, p, "giant")
        out.append(q)
    return out

def scaled(rng, i):
    """Right-hand sides and linear terms of another magnitude: the same problem in other units of x."""
    q = suite(rng, 1, 5)[0]; t = 10.0 ** rng.uniform(2.5, 6.5) if i % 2 else 10.0 ** rng.uniform(-5, -1)
    return Problem(q.P, q.c * t, q.G, q.h * t, q.A, q.b * t, name="scaled")

def peculiar(rng, i):
    """Problems full of coincidences: ties, equal or zero data, singletons, free or fixed variables, duplicates, special values."""
    n = int(rng.integers(1, 7)); p = int(rng.integers(0, n)) if n > 1 and rng.random() < 0.5 else 0
    pick = lambda *a: a[int(rng.integers(len(a)))]
    def mat():
        k = int(rng.integers(7))
        if k == 0: return np.eye(n) * pick(1.0, 2.0, 0.5, 100.0, 0.05)
        if k == 1: return np.zeros((n, n))
        if k == 2: return np.ones((n, n)) * pick(1.0, 0.25)
        if k == 3: return np.diag(rng.integers(0, 3, size=n).astype(float))
        if k == 4: return np.eye(n) * 2 - np.eye(n, k=1) * 0.75 - np.eye(n, k=-1) * 0.75
        if k == 5: v = rng.integers(-2, 3, size=n).astype(float); return np.outer(v, v)
        M = rng.integers(-2, 3, size=(n, n)).astype(float); return M @ M.T + np.eye(n)
    P = mat(); I = np.eye(n)
    rows = []
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(8))
        if k == 0: rows += [I[j] for j in range(n)]
        elif k == 1: rows += [-I[j] for j in range(n)]
        elif k == 2: j = int(rng.integers(n)); rows += [I[j], -I[j]]
        elif k == 3: rows.append(np.ones(n))
        elif k == 4: rows += [np.eye(n)[j] - np.eye(n)[(j + 1) % n] for j in range(n)]
        elif k == 5: rows += [rng.integers(-1, 2, size=n).astype(float)] * int(rng.integers(1, 4))
        elif k == 6: rows.append(np.zeros(n))
        else: v = rng.integers(-3, 4, size=n).astype(float); rows += [v, -v]
    G = np.array(rows); m = len(G)
    A = np.zeros((0, n))
    if p:
        k = int(rng.integers(3)); o = rng.permutation(n)
        A = I[o[:p]] * pick(1.0, -1.0, 2.0) if k == 0 else np.triu(np.ones((n, n)))[o[:p]] if k == 1 else (np.eye(n) - np.eye(n, k=1))[o[:p]]
    x = pick(np.zeros(n), np.ones(n), rng.integers(-2, 3, size=n).astype(float), np.full(n, 0.5))
    d = pick(1.0, 0.5, 1.0, 2.0, 100.0, 0.05); h = G @ x + (d if rng.random() < 0.6 else d * rng.integers(1, 3, size=m))
    c = pick(np.zeros(n), np.ones(n), -np.ones(n), -(P @ x), rng.integers(-3, 4, size=n).astype(float), I[0], 30 * np.ones(n))
    if np.linalg.matrix_rank(np.vstack([P, G, A])) < n: G = np.vstack([G, I, -I]); h = np.concatenate([h, x + d, d - x])
    elif np.linalg.eigvalsh(P)[0] < 1e-9: G = np.vstack([G, I, -I]); h = np.concatenate([h, np.abs(x) + 3 + d, np.abs(x) + 3 + d])
    return Problem(P, c, G, h, A, A @ x, name="peculiar", solvable=True)
