"""C08 (memory and caller data) and C09 (independence, reproducibility, threads)."""
import ctypes as C, json, threading
import numpy as np
from . import build, gen, qp, rec, enc, blocks
from .checks_blocks import emitted
L, V = C.c_long, C.c_void_p

class Wrap(qp.Lib):
    def __init__(self, lib=None):
        super().__init__(lib or build.lib_wrap()); l = self.l
        l.w_place.restype = V; l.w_place.argtypes = [V, C.c_size_t]; l.w_unplace.argtypes = [V, C.c_size_t]
        l.w_others.restype = C.c_ulong; l.w_others.argtypes = [L]; l.w_begin.argtypes = [L]
        for f in ("w_end", "w_live", "w_damaged", "w_unsched", "w_clock_log"): getattr(l, f).restype = L
        l.w_log.argtypes = [V]; l.w_failamd.argtypes = [L]; l.w_quanta.argtypes = [V, L]; l.w_clock.argtypes = [C.c_longlong, V, L]; l.w_clock_log.argtypes = [V]; l.w_mode.argtypes = [C.c_int, C.c_int]; l.w_sched.argtypes = [V, L, C.c_int]; l.w_enter.argtypes = [C.c_int]
    def log(self):
        n = self.l.w_end(); a = np.zeros(3 * max(n, 1), dtype=np.int64); self.l.w_log(a.ctypes.data); return a[:3 * n].reshape(-1, 3).tolist()

class RO:
    """Problem data in read-only pages."""
    def __init__(self, W, q, fmt, perm, nulls=()):
        self.W, self.q, self.fmt, self.places = W, q, fmt, []
        put = self.put; useA = q.p > 0
        if fmt == "sparse":
            self.P, self.G = self.mat(q.P), self.mat(q.G); self.A = self.mat(q.A) if useA else (None,) * 3
        else:
            o = "C" if fmt == "row" else "F"; d = lambda M: put(np.asarray(M).ravel(order=o).astype(float))
            self.P, self.G, self.A = d(q.P), d(q.G), d(q.A) if useA else None
        self.c, self.h, self.b = put(q.c), put(q.h), put(q.b) if useA else None
        self.perm = None if perm is None else put(np.array(perm, dtype=np.int64))
    def put(self, a):
        a = np.ascontiguousarray(a); p = self.W.l.w_place(a.ctypes.data, a.nbytes); self.places.append((p, a)); return p
    def mat(self, M):
        jc, ir, pr = qp.dens2ccs(M); k = int(jc[-1]); return self.put(jc), self.put(ir[:k]), self.put(pr[:k])
    def kept(self): return all(C.string_at(p, a.nbytes) == a.tobytes() for p, a in self.places)
    def free(self):
        for p, a in self.places: self.W.l.w_unplace(p, a.nbytes)
class RObj(qp.Obj):
    """An object over read-only data."""
    def __init__(self, W, ro, sigma_d=0.0):
        self.lib, self.l, self.pr, self.fmt, q = W, W.l, ro.q, ro.fmt, ro.q
        if ro.fmt == "sparse": self.q = self.l.v_setup(q.n, q.m, q.p, *ro.P, *ro.A, *ro.G, ro.c, ro.h, ro.b, sigma_d, ro.perm)
        else: self.q = self.l.v_setup_dense(q.n, q.m, q.p, ro.P, ro.A, ro.G, ro.c, ro.h, ro.b, ro.perm, W.ROW if ro.fmt == "row" else W.COL)

def what(o, code=None):
    """What a call returned and left in the object (the objective and norms exist once an iterate was tested)."""
    s = o.stats(); w = o.vecs()
    r = dict(w=enc.w(*w), iter=s["iter"], flag=s["flag"], perm=o.perm_used(), ap=enc.d(s["ap"]), ad=enc.d(s["ad"]), sg=enc.d(o.opts()["sigma"]))
    if code is not None: r.update(code=int(code))
    if code is not None and o.opts()["maxit"] > 0: r.update(fval=enc.d(s["fval"]), nr=[enc.d(s[k]) for k in ("nrx", "nry", "nrz", "nmu")])
    return r

class Life:
    """What one object does: configuration and limits of its solves; also its reference results, alone."""
    def __init__(self, r, q, fmt, own, limits, amdfail=-1):
        self.amdfail = -1 if own else amdfail                        # which of AMD's allocations fails
        self.q, self.fmt, self.limits = q, fmt, limits
        self.perm = r.permutation(q.n + q.m + q.p) if own else None; self.sd = float(r.choice([0.0, 1e-3])) if fmt == "sparse" else 0.0
        self.at = 0
    def reference(self, lib):
        if self.amdfail != -1: lib.l.v_amd_begin(L(self.amdfail))
        o = qp.Obj(lib, self.q, fmt=self.fmt, perm=self.perm, sigma_d=self.sd); self.ref = [what(o)]
        if self.amdfail != -1: junk = np.zeros(5, dtype=np.int64); lib.l.v_amd_end(V(junk.ctypes.data))
        for k in self.limits: o.setopt(maxit=k); self.ref.append(what(o, o.solve()))
        o.cleanup(); return self

def call(W, R, lives, objs, ros, h, do):
    lf = lives[h]; l = W.l; W.l.w_clear(); before = l.w_others(h)
    R.begin("%s object %d (%s, %s, own permutation %s)" % (do, h, lf.q.name, lf.fmt, lf.perm is not None))
    res = ref = []
    if do == "setup":
        ros[h] = RO(W, lf.q, lf.fmt, lf.perm); l.w_failamd(lf.amdfail); l.w_begin(h); objs[h] = RObj(W, ros[h], lf.sd); log = W.log(); l.w_failamd(-1); lf.at = 0; res, ref = what(objs[h]), lf.ref[0]
    elif do == "solve":
        o = objs[h]; o.setopt(maxit=lf.limits[lf.at]); l.w_begin(h); code = o.solve(); log = W.log(); lf.at += 1; res, ref = what(o, code), lf.ref[lf.at]
    else:
        l.w_begin(h); objs[h].cleanup(); log = W.log()
    e = dict(do=do, h=h, log=log, live=l.w_live(), damaged=l.w_damaged(), others=bool(l.w_others(h) == before), kept=ros[h].kept(), res=res, ref=ref)
    if do == "cleanup": ros[h].free(); ros[h] = None
    return e

def interleavings(ctx, obj, solves, cap, salt):
    hs = [d["hist"] for d in emitted(ctx, "QPApi", "QPApi.cfg", dict(OBJ=str(obj), SOLVES=str(solves)))]
    hs.sort(key=json.dumps)
    if len(hs) > cap: g = ctx.rng(salt); hs = [hs[int(i)] for i in sorted(g.choice(len(hs), size=cap, replace=False))]
    return hs

def api(ctx):
    lib = ctx.lib(); r = ctx.rng()
    hs = interleavings(ctx, 1, 3, 99, 1) * ctx.n(12, 100) + interleavings(ctx, 2, 2, ctx.n(216, 216), 2) * ctx.n(1, 6) + interleavings(ctx, 3, 1, ctx.n(60, 2000), 3)
    ps = [q for q in gen.special() + gen.suite(r, ctx.n(120, 800), 5) if q.n + q.m + q.p <= 24] + [gen.boxqp(r, 12)]
    def go(R):
        W = Wrap()
        for i, hist in enumerate(hs):
            H = max(e["h"] for e in hist); lives = {}
            for h in range(1, H + 1):
                k = sum(1 for e in hist if e["h"] == h and e["do"] == "solve")
                lives[h] = Life(r, ps[int(r.integers(len(ps)))], ("sparse", "row", "col")[int(r.integers(3))], bool(r.integers(2)), [int(r.choice([0, 1, 3, 100])) for _ in range(k)], int(r.choice([-1, -1, -1, -2, 0, 1, 2, 3, 4]))).reference(lib)
            W.l.w_mode(i % 2, (0xA5, 0xFF, 0x00)[i % 3])
            objs, ros, evs = {}, {}, []
            again = hist + (hist if i % 5 == 0 else [])           # the same objects set up anew
            for e in again: evs.append(call(W, R, lives, objs, ros, e["h"], e["do"]))
            W.l.w_reset(); R.put(dict(id=str(i), objects=H, evs=evs), len(evs) + 1)
        for i, q in enumerate(gen.sweep(r, ctx.n(516, 2000), 6, ctx.n(136, 260)) + gen.giants(r, ctx.n(24, 96))):      # one life for every size
            lf = {1: Life(r, q, ("sparse", "row", "col")[i % 3], i % 2 == 0, [int(r.choice([1, 3, 100]))]).reference(lib)}; W.l.w_mode(i % 2, (0xA5, 0xFF, 0x00)[i % 3]); objs, ros = {}, {}
            evs = [call(W, R, lf, objs, ros, 1, do) for do in ("setup", "solve", "cleanup")]; W.l.w_reset(); R.put(dict(id="z%d" % i, objects=1, evs=evs), 4)
        for i in range(ctx.n(3, 12)):                                   # many objects alive at once
            H = ctx.n(48, 150); some = gen.sweep(r, H // 4, 4, 40); W.l.w_mode(i % 2, (0xA5, 0xFF, 0x00)[i % 3]); objs, ros, evs = {}, {}, []
            lives = {h: Life(r, some[h // 2 % len(some)] if h % 3 == 0 else ps[int(r.integers(len(ps)))], ("sparse", "row", "col")[int(r.integers(3))], bool(r.integers(2)), [int(r.choice([1, 3, 100]))] * 2).reference(lib) for h in range(1, H + 1)}
            for do in ("setup", "solve", "solve", "cleanup"):
                for h in r.permutation(H): evs.append(call(W, R, lives, objs, ros, int(h) + 1, do))
            W.l.w_reset(); R.put(dict(id="many%d" % i, objects=H, evs=evs), len(evs) + 1)
    ctx.both("QPApiTrace", go, what="interleaved lives of objects")

def parallel(ctx):
    """Several threads: under a token scheduler (switching at allocator and timer calls, and between basic blocks), then free running."""
    lib = ctx.lib(); r = ctx.rng(5)
    ps = [q for q in gen.special() + gen.suite(r, 60, 6) + [gen.boxqp(r, 10), gen.mpc(r, 6), gen.portfolio(r, 8)]]
    def go(R):
        W = Wrap(build.lib_yield())
        for i in range(ctx.n(200, 3000)):
            T = 2 + i % 2; lives = [Life(r, ps[int(r.integers(len(ps)))], ("sparse", "row", "col")[int(r.integers(3))], bool(r.integers(2)), [int(r.choice([3, 100]))]).reference(lib) for _ in range(T)]
            ros = [RO(W, v.q, v.fmt, v.perm) for v in lives]
            k = i % 4
            seq = bytes(int(x) for x in (r.integers(0, T, 997) if k == 0 else np.repeat(r.integers(0, T, 499), r.integers(1, 5)) if k == 1 else np.tile(np.arange(T), 50) if k == 2 else np.repeat(np.arange(T), int(r.integers(2, 40)))))
            R.begin("threads %s schedule kind %d" % ([v.q.name for v in lives], k))
            out = [None] * T; W.l.w_mode(i % 2, (0xFF, 0xA5)[i % 2]); W.l.w_clear()
            def body(t):
                W.l.w_enter(t)
                W.l.w_begin(t + 1); o = RObj(W, ros[t], lives[t].sd); a = what(o); o.setopt(maxit=lives[t].limits[0]); c = o.solve(); b = what(o, c); o.cleanup(); W.l.w_end()
                W.l.w_leave(); out[t] = (a, b)
            quanta = np.array(r.integers(1, int(r.choice([3, 30, 300, 3000])), 4999), dtype=np.int32); W.l.w_quanta(quanta.ctypes.data, 0 if i % 4 == 3 else len(quanta))
            W.l.w_sched(seq, len(seq), T)
            th = [threading.Thread(target=body, args=(t,)) for t in range(T)]
            for t in th: t.start()
            for t in th: t.join()
            W.l.w_unsched(); log = W.log()
            evs = []
            for t in range(T):
                own = log if t == 0 else []
                evs.append(dict(do="setup", h=t + 1, log=[], live=0, damaged=0, others=True, kept=True, res=out[t][0], ref=lives[t].ref[0]))
                evs.append(dict(do="solve", h=t + 1, log=[x for x in own if x[0] > 2], live=0, damaged=W.l.w_damaged(), others=True, kept=ros[t].kept(), res=out[t][1], ref=lives[t].ref[1]))
            left = W.l.w_live()
            evs.append(dict(do="cleanup", h=1, log=[], live=left, damaged=0, others=True, kept=True, res=[], ref=[]))
            for v in ros: v.free()
            W.l.w_reset(); R.put(dict(id="t%d" % i, objects=T, evs=evs), len(evs) + 1)
        # free running
        for i in range(ctx.n(6, 60)):
            T = 8; big = [gen.boxqp(r, 25), gen.mpc(r, 12)] + gen.giants(r, 6)[i % 6:i % 6 + 1] + [ps[int(r.integers(len(ps)))] for _ in range(T - 3)]
            lives = [Life(r, q, ("sparse", "row", "col")[j % 3], bool(r.integers(2)), [100]).reference(lib) for j, q in enumerate(big)]
            out = [[] for _ in range(T)]; bar = threading.Barrier(T); R.begin("free running threads")
            def run(t):
                bar.wait()
                for _ in range(ctx.n(12, 40)):
                    o = qp.Obj(lib, lives[t].q, fmt=lives[t].fmt, perm=lives[t].perm, sigma_d=lives[t].sd); a = what(o); o.setopt(maxit=100); c = o.solve(); out[t].append((a, what(o, c))); o.cleanup()
            th = [threading.Thread(target=run, args=(t,)) for t in range(T)]
            for t in th: t.start()
            for t in th: t.join()
            for t in range(T):
                for a, b in {json.dumps(x): x for x in out[t]}.values():
                    evs = [dict(do=d, h=1, log=[], live=0, damaged=0, others=True, kept=True, res=x, ref=y) for d, x, y in (("setup", a, lives[t].ref[0]), ("solve", b, lives[t].ref[1]))]
                    R.put(dict(id="f%d-%d" % (i, t), objects=1, evs=evs), 3)
    ctx.both("QPApiTrace", go, name="threads", what="threads")
def C08(ctx):
    from .checks_run import fails
    api(ctx); fails(ctx, ctx.n(150, 2000))
def C09(ctx): api(ctx); parallel(ctx)
