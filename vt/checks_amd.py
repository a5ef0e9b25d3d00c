"""C16: the AMD ordering."""
import ctypes as C, itertools
import numpy as np
from . import gen, rec, qp, enc, blocks
from .blocks import Buf, I, D, clip
from .checks_blocks import emitted
from .checks_pair import pair, put as put_pair
L, V = C.c_long, C.c_void_p
NAMES = [("status", 0), ("n", 1), ("nz", 2), ("nzdiag", 4), ("nzaat", 5), ("ndense", 6), ("lnz", 9), ("ndiv", 10), ("ldl", 11), ("lu", 12), ("dmax", 13)]

class Amd:
    def __init__(self, lib):
        self.l = lib.l
        self.l.v_amd.restype = L; self.l.v_amd.argtypes = [L] + [V] * 5 + [L, V]
        self.l.v_amd_begin.argtypes = [L]; self.l.v_amd_end.argtypes = [V]
    def call(self, n, Ap, Ai, null="", fail=-1, dense=None, agg=1.0, info=True):
        N = max(n, 0); runs = []
        for k in range(2):
            ap, ai, P = I(Ap), I(Ai), I(np.full(N, -5 - k)); ctl = D([10.0 if dense is None else dense, agg, 0, 0, 0]); inf = D(np.full(20, -7.0)); o = np.zeros(5, dtype=np.int64)
            ret = self.l.v_amd(n, None if null == "Ap" else ap.p, None if null == "Ai" else ai.p, None if null == "P" else P.p,
                               None if dense is None and agg == 1.0 and k else ctl.p, inf.p if info else None, fail, o.ctypes.data)
            kept = ap.kept() and ai.kept() and ctl.kept() and P.guarded() and inf.guarded()
            i = {a: clip(inf.v[j]) if np.isfinite(inf.v[j]) else -99 for a, j in NAMES}
            runs.append(dict(ret=clip(ret), P=[clip(v) for v in P.v], info=i, sym=enc.d(inf.v[3]), alloc=[clip(v) for v in o], kept=bool(kept)))
        return dict(n=n, Ap=[int(v) for v in Ap], Ai=[int(v) for v in Ai], null=null, fail=fail, dense=100 if dense is None else int(round(dense * 10)), info=info, fills=[], runs=runs)

def csc(n, pairs, r=None, dup=0.0, jumble=0.0):
    cols = [[] for _ in range(n)]
    for i, j in pairs: cols[j].append(i)
    Ap, Ai = [0], []
    for j in range(n):
        s = sorted(cols[j])
        if r is not None and s and r.random() < dup: s = sorted(s + [s[int(r.integers(len(s)))] for _ in range(int(r.integers(1, 3)))])
        if r is not None and r.random() < jumble: r.shuffle(s)
        Ai += [int(v) for v in s]; Ap.append(len(Ai))
    return Ap, Ai

def patterns(r, n):
    """Directed patterns with different characters."""
    k = int(r.integers(8)); S = set()
    if k == 0: S = {(i, j) for i in range(n) for j in range(n) if r.random() < 0.1}
    elif k == 1: S = {(i, j) for i in range(n) for j in range(n) if r.random() < 0.4}
    elif k == 2: S = {(i, j) for i in range(n) for j in range(max(0, i - 2), i + 1)}
    elif k == 3:
        for i in range(1, n): S.add((i, int(r.integers(i))))
    elif k == 4: S = {(i, int(r.integers(n))) for i in range(n)} | {(0, i) for i in range(n)}
    elif k == 5:
        g = max(2, int(n ** .5)); S = {(i, j) for i in range(n) for j in (i + 1, i + g) if j < n}
    elif k == 6: S = {(i, j) for i in range(n) for j in range(n) if i // 4 == j // 4 or (i % 4 == 0 and j % 4 == 0)}
    else: S = {(i, j) for i in range(n // 2) for j in range(n // 2, n) if r.random() < 0.3}
    S = {p for p in S if r.random() < 0.97}
    if r.random() < 0.5: S |= {(i, i) for i in range(n) if r.random() < 0.7}
    if r.random() < 0.4: S |= {(j, i) for i, j in S}
    if r.random() < 0.3 and n:
        e = int(r.integers(n)); S = {p for p in S if e not in p}
    q = r.permutation(n)
    return {(int(q[i]), int(q[j])) for i, j in S}

def parts(ctx, lib):
    """The package's other functions."""
    import re
    from .checks_session import Capture
    r = ctx.rng(31); l = lib.l; l.amd_l_valid.restype = L; l.amd_l_valid.argtypes = [L, L, V, V]
    base = dict(n=0, rows=0, cols=0, Ap=[], Ai=[], null="", ret=0, Rp=[], Ri=[], parent=[], nv=[], fsize=[], order=[], given=True, control=[], info=[], nums=[], words=[], dense=enc.d(0), aggressive=True, kept=True)
    def go(R):
        def put(do, **k): R.put(dict(base, do=do, **k), 2)
        def valid(rows, cols, Ap, Ai, null=""):
            R.begin("valid %d %d %s %s %s" % (rows, cols, Ap, Ai, null)); ap, ai = I(Ap), I(Ai)
            ret = l.amd_l_valid(rows, cols, None if null == "Ap" else ap.p, None if null == "Ai" else ai.p); put("valid", rows=rows, cols=cols, Ap=list(Ap), Ai=list(Ai), null=null, ret=clip(ret), kept=ap.kept() and ai.kept())
        for rows in (-1, 0, 1, 3):
            for cols in (-1, 0, 1):
                for null in ("", "Ap", "Ai"): valid(rows, cols, [0, 0], [0], null)
        for Ap in itertools.product(range(-1, 3), repeat=2):
            for Ai in itertools.product(range(-1, 3), repeat=2): valid(2, 1, Ap, Ai + (0,)); valid(0, 1, Ap, Ai + (0,))
        for i in range(ctx.n(600, 6000)):
            cols, rows = int(r.integers(0, 5)), int(r.integers(0, 5)); k = r.integers(0, 4, size=cols); Ap = [0] + np.cumsum(k).tolist(); top = Ap[-1]
            Ai = [int(v) for j in range(cols) for v in (np.sort(r.permutation(max(rows, 1))[:k[j]]) if k[j] <= rows and i % 3 else r.integers(0, max(rows, 1), size=k[j]))]
            if i % 4 == 1 and Ai: Ai[int(r.integers(len(Ai)))] = int(r.choice([-1, rows, rows + 5]))
            if i % 8 == 3: j = int(r.integers(cols + 1)); Ap[j] = max(-1, min(top, Ap[j] + int(r.choice([-2, -1, 1, 2]))))
            valid(rows, cols, Ap, Ai + [0])
        pre = getattr(l, "amd_l_preprocess", None)             # internal: absent, there is nothing to judge
        if pre: pre.restype = None; pre.argtypes = [L] + [V] * 6
        for i in range(ctx.n(300, 3000) if pre else 0):
            n = int(r.integers(0, 9)); Ap, Ai = csc(n, patterns(r, n) if n else [], r, (0, .5)[i % 2], (0, .7)[i // 2 % 2]); ap, ai = I(Ap), I(Ai if Ai else [0]); R.begin("preprocess %s %s" % (Ap, Ai))
            Rp, Ri, w, f = I(np.full(n + 1, -9)), I(np.full(max(len(Ai), 1), -9)), I(np.full(n, 77)), I(np.full(n, -77)); pre(n, ap.p, ai.p, Rp.p, Ri.p, w.p, f.p)
            put("preprocess", n=n, Ap=Ap, Ai=Ai, Rp=[clip(v) for v in Rp.v], Ri=[clip(v) for v in Ri.v], kept=bool(ap.kept() and ai.kept() and Rp.guarded() and Ri.guarded() and w.guarded() and f.guarded()))
        post = getattr(l, "amd_l_postorder", None)
        if post: post.restype = None; post.argtypes = [L] + [V] * 7
        for i in range(ctx.n(400, 4000) if post else 0):
            n = int(r.integers(1, (5, 9, 14)[i % 3])); q = r.permutation(n); nodes = [int(v) for v in q[:int(r.integers(1, n + 1))]]; par, nv = [-1] * n, [0] * n
            for k, v in enumerate(nodes):
                nv[v] = int(r.integers(1, 4))
                if k and r.random() < 0.85: par[v] = nodes[int(r.integers(max(0, k - 3), k))] if i % 2 else nodes[int(r.integers(k))]
            fs = [int(v) for v in r.integers(1, (3, 12)[i % 2], size=n)]; R.begin("postorder %s %s %s" % (par, nv, fs))
            a, b, c, o = I(par), I(nv), I(fs), I(np.full(n, -1)); w = [I(np.full(n, 99)) for _ in range(3)]; post(n, a.p, b.p, c.p, o.p, *[x.p for x in w])
            put("postorder", parent=par, nv=nv, fsize=fs, order=[clip(v) for v in o.v], kept=bool(all(x.guarded() for x in [a, b, c, o] + w) and b.kept() and c.kept()))
        for g in (True, False):
            d = D([-3.0] * 5); R.begin("defaults"); l.amd_l_defaults(d.p if g else None); put("defaults", given=g, control=[enc.d(v) for v in d.v], kept=bool(d.guarded()))
        printf = V.in_dll(l, "amd_printf"); old = printf.value; printf.value = C.cast(C.CDLL(None).printf, V).value
        num = r"([-+]?(?:\d[\d.]*(?:[eE][-+]?\d+)?|nan|inf))"
        try:
            for i in range(ctx.n(200, 2000)):
                v = r.integers(0, 10 ** int(r.integers(1, 7)), size=20).astype(float); v[0] = (0, 1, -1, -2, 5)[i % 5]; v[3] = float(r.integers(0, 17)) / 16
                if i % 3 == 0: k = r.integers(1, 14, size=int(r.integers(1, 14))); v[k] = -1.0
                d = D(v); g = i % 20 != 19; R.begin("report %s" % v.tolist())
                with Capture() as cap: l.amd_l_info(d.p if g else None)
                t = cap.text; st = re.findall(r"status:\s*(.*)", t); nums = [enc.d(float(x)) for line in t.splitlines() for x in re.findall(r":\s+" + num + r"\s*$", line)]
                put("info", given=g, info=[enc.d(x) for x in v], nums=nums, words=[x.strip() for x in st], kept=bool(d.kept()))
                c = D([float(r.choice([-1.0, -0.0, 0.0, 0.5, 10.0, 2.5, -7.5, 100.0])), float(r.choice([0.0, 1.0, -1.0, 0.5])), 0, 0, 0])
                with Capture() as cap: l.amd_l_control(c.p if g else None)
                t = cap.text; nums = [enc.d(float(x)) for x in re.findall(r"parameter:\s+" + num, t)]; yes = re.findall(r"absorption:\s+(\w+)", t)
                put("control", given=g, dense=enc.d(c.v[0]), aggressive=bool(c.v[1] != 0), nums=nums, words=["none" if "no rows treated as dense" in t else "some"] + yes, kept=bool(c.kept()))
        finally: printf.value = old
    ctx.both("AMDParts", go, name="parts", what="validity, preprocessing, postorder, defaults, reports")

def C16(ctx):
    lib = ctx.lib(); a = Amd(lib); r = ctx.rng()
    parts(ctx, lib)
    graphs = {}
    for n in range(1, ctx.n(5, 6)):
        for d in emitted(ctx, "AMDModel", "AMDModel.cfg", dict(NN=str(n))):
            graphs.setdefault((n, tuple(sorted((i - 1, j - 1) for i, j in d["E"]))), set()).add(d["fill"])
    def go(R):
        def put(c, fills=()):
            c["fills"] = sorted(fills); R.put(c, 5)
        for (n, E), fills in sorted(graphs.items()):
            R.begin("graph %d %s" % (n, E))
            for v in range(2):
                S = set(E) | {(j, i) for i, j in E}
                if v: S = {p for p in S if p in E and r.random() < 0.5 or (p[1], p[0]) not in S} | {(i, j) if r.random() < .5 else (j, i) for i, j in E} | {(i, i) for i in range(n) if r.random() < .5}
                put(a.call(n, *csc(n, S, r, 0.3 * v, 0.3 * v), agg=float(v)), fills)
        # every directed pattern with diagonal of 3 nodes
        cells = [(i, j) for i in range(3) for j in range(3)]
        for k in range(512):
            R.begin("pattern %d" % k); put(a.call(3, *csc(3, [cells[b] for b in range(9) if k >> b & 1]), info=k % 7 != 0))
        # invalid and odd arguments
        for n in (1, 2):
            for Ap in itertools.product(range(-1, 4), repeat=n + 1):
                for Ai in itertools.product(range(-1, n + 1), repeat=2):
                    if (n == 2 and sum(Ai) % 3) and Ap[0] == 0 and ctx.quick and r.random() < .5: continue
                    R.begin("arguments %s %s" % (Ap, Ai)); put(a.call(n, Ap, Ai + (0,)))
        for n in (-3, -1, 0, 1):
            for null in ("", "Ap", "Ai", "P"):
                for inf in (True, False): R.begin("null %s n=%d" % (null, n)); put(a.call(n, [0, 1], [0], null=null, info=inf))
        for i in range(ctx.n(160, 3000)):
            n = int(r.integers(1, (8, 16, 30, 45)[i % 4])); S = patterns(r, n)
            R.begin("pattern n=%d %s" % (n, sorted(S)))
            put(a.call(n, *csc(n, S, r, (0, 0, .5)[i % 3], (0, 0, .5)[i % 3]), agg=float(i % 5 != 0), dense=None if i % 5 else 10.0, info=i % 9 != 0))
        for i in range(ctx.n(24, 200)):                      # dense rows
            n = int(r.integers(18, (30, 60)[i % 2])); S = patterns(r, n)
            for _ in range(int(r.integers(1, 4))):
                d = int(r.integers(n)); k = int(r.integers(15, n + 1)); S |= {(d, int(j)) for j in r.permutation(n)[:k]}
            R.begin("dense n=%d %s" % (n, sorted(S)))
            put(a.call(n, *csc(n, S, r, .2, .2), dense=(-1.0, 0.0, 0.5, 1.0, 2.5, None)[i % 6]))
        for i in range(ctx.n(16, 120)):                      # larger ones: degrees around the threshold and around n/2
            n = int(r.integers(50, ctx.n(105, 140))); k = int(r.integers(2, n)) if i % 2 else n * int(r.integers(4, 8)) // 10; S = {(a, b) for a in range(k) for b in range(a)}
            if i % 4 == 0: S = {p for p in S if r.random() < 0.95}
            for d in range(i % 3): S |= {(k + d if k + d < n else d, b) for b in range(int(r.integers(2, n)))}
            S |= {(j, int(r.integers(j))) for j in range(1, n)}; q = r.permutation(n); S = {(int(q[x]), int(q[y])) for x, y in S}; R.begin("large n=%d" % n)
            put(a.call(n, *csc(n, S, r, 0, .2 * (i % 5 == 0)), dense=(None, None, 10.0, 6.0, 4.0)[i % 5]))
        for i in range(ctx.n(18, 90)):                       # hundreds of nodes: forests (no fill), grids, bands, loose graphs
            e = (256, 512, 1024)[i // 6 % 3]; n = e + int(r.integers(-1, 3)) if i % 3 else int(r.integers(150, 1100))
            if i % 6 < 2: S = {(j, int(r.integers(max(0, j - (3, n)[i % 2]), j))) for j in range(1, n) if r.random() < 0.98}
            elif i % 6 == 2: n = min(n, 320); g = int(n ** .5); S = {(j, k) for j in range(n) for k in ((j + 1) if (j + 1) % g else n, j + g) if k < n}
            elif i % 6 == 3: n = min(n, 600); b = int(r.integers(2, 5)); S = {(j, k) for j in range(n) for k in range(max(0, j - b), j)}
            elif i % 6 == 4: n = min(n, 300); S = {(int(a), int(b)) for a, b in r.integers(n, size=(n, 2)) if a != b}
            else: k = int(r.integers(10, 17)); S = {(j, j // k * k) for j in range(n) if j % k} | {(j, j - k) for j in range(k, n, k)}      # a chain of stars
            forest = [len(S)] if i % 6 in (0, 1, 5) else (); q = r.permutation(n); S = {(int(q[a]), int(q[b])) for a, b in S}
            R.begin("huge n=%d kind %d" % (n, i % 6)); put(a.call(n, *csc(n, S, r, 0, .3 * (i % 4 == 0))), forest)
        for n in list(range(15, 23)) + [30, 40]:               # nothing but dense rows, and nearly so
            for k in range(3):
                S = {(i, j) for i in range(n) for j in range(n)} - {(0, j) for j in range(k * 2)}; R.begin("full n=%d" % n); put(a.call(n, *csc(n, S), dense=(0.0, 1.0, None)[(n + k) % 3]))
        for i in range(ctx.n(30, 200)):                      # failing allocations
            n = int(r.integers(1, 8)); S = patterns(r, n); A = csc(n, S, r, .5 * (i % 2), .5 * (i % 2))
            for fail in (0, 1, 2, 3, 4, 5, -2):
                R.begin("failing allocation %d" % fail); put(a.call(n, *A, fail=fail, info=i % 3 != 0))
        for i, q in enumerate(gen.special() + gen.suite(r, ctx.n(60, 800), 5)):           # the matrices the solver orders
            o = qp.Obj(lib, q); K = o.mat(5); o.cleanup(); R.begin("kkt " + q.name); put(a.call(K["n"], K["jc"], K["ir"]))
    ctx.both("AMDOrder", go, what="orderings")
    # the solver without a usable ordering: the run with the natural ordering, bit for bit
    def go2(R):
        o = np.zeros(5, dtype=np.int64)
        for i, q in enumerate(gen.special() + gen.suite(r, ctx.n(30, 300), 5)):
            R.begin("no ordering for " + q.name); fmt = ("sparse", "row", "col")[i % 3]
            x = rec.runs(lib, q, "a", cap=12, perm=np.arange(q.n + q.m + q.p), fmt=fmt)
            a.l.v_amd_begin(-2)
            y = rec.runs(lib, q, "b", cap=12, fmt=fmt)
            a.l.v_amd_end(o.ctypes.data)
            if o[3] or o[4]: y["it"] = y["it"][:1]
            put_pair(R, pair(q, x, y, str(i), mode="bit"))
    ctx.both("PairTrace", go2, name="fallback", what="fallback to the natural ordering", env=dict(WANT="C06"))
