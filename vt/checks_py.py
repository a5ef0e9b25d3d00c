"""C13 (which Python calls are accepted) and C14 (their results)."""
import ctypes as C, gc, json, os, re, sys, threading, tracemalloc, warnings
import numpy as np
from . import build, gen, qp, rec, enc
from .checks_blocks import emitted
OPTS = ("MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE", "OUTPUT")
ABSENT = dict(n="absent", t="absent", v=0, pos=False, small=False)

class Ext:
    """The extension module; watched: with recording allocator and call counters."""
    def __init__(self, watched):
        d = build.pyext(watched); sys.path.insert(0, d); import qpSWIFT
        assert os.path.dirname(qpSWIFT.__file__) == d, qpSWIFT.__file__
        self.run, self.watched = qpSWIFT.run, watched; self.libc = C.CDLL(None); self.k = np.zeros(3, dtype=np.int64)
        self.at = os.lseek(1, 0, os.SEEK_END)
        if watched:
            self.l = C.CDLL(qpSWIFT.__file__)
            self.l.w_live.restype = C.c_long; self.l.w_end.restype = C.c_long; self.l.w_begin.argtypes = [C.c_long]; self.l.y_counts.argtypes = [C.c_void_p]
    def printed(self):
        self.libc.fflush(None); end = os.lseek(1, 0, os.SEEK_END); t = os.pread(1, end - self.at, self.at).decode(errors="replace") if end > self.at else ""; self.at = end
        return t

def fill(t, dims, k):
    """An array of the described type and shape."""
    if t == "O": a = np.empty(dims, dtype=object); a[...] = 1.0; return a
    if t == "U1": return np.full(dims, "1", dtype="U1")
    N = int(np.prod(dims)) if len(dims) else 1; v = (((np.arange(N) * 7 + k * 3) % 5) - 1.5) / 2
    return np.array(v).reshape(dims).astype({"f8": "f8", "g": np.longdouble}.get(t, t))

def args_of(call):
    """Concrete arguments; P is made positive definite when square, h positive."""
    v = {}
    for k, s in enumerate(("c", "h", "P", "G", "A", "b")):
        a = call[s]
        if a["k"] == "missing": continue
        if a["k"] == "other": v[s] = {"list": [1.0, 2.0], "None": None, "float": 1.5, "str": "x"}[a["t"]]; continue
        v[s] = fill(a["t"], a["dims"], k)
        if s == "P" and len(a["dims"]) == 2 and a["dims"][0] == a["dims"][1] and a["t"] not in ("O", "U1"): v[s] = np.eye(a["dims"][0]).astype(v[s].dtype) * 2
        if s == "h" and a["t"] not in ("O", "U1"): v[s] = np.asarray(np.abs(v[s]) + np.ones_like(v[s]))
    return v

def opts_of(call):
    if call["opts"] == "missing": return None
    if call["opts"] == "other": return ["MAXITER", 5]
    return {o: eval(call[o]["n"], dict(np=np, float=float)) for o in OPTS if call[o]["t"] != "absent"}

def outcome(X, call, v, o, style, strict, ref=None, order=("c", "h", "P", "G", "A", "b")):
    """Makes one call; returns the recorded case."""
    pos, kw = [], {}
    if style == 1:
        for s in order:
            if s not in v: break
            pos.append(v[s])
        kw = {s: v[s] for s in order[len(pos):] if s in v}
    else: kw = {s: v[s] for s in (order if style == 0 else order[::-1]) if s in v}
    if o is not None:
        if len(pos) == 6: pos.append(o)
        else: kw["opts"] = o
    if call["extra"]: kw["Q"] = v.get("P", 1.0)
    objs = [x for x in list(v.values()) + [o] + (list(o.values()) if isinstance(o, dict) else list(o) if o else [])]
    arrs = [x for x in v.values() if isinstance(x, np.ndarray)]; before = [x.tobytes() for x in arrs]
    get = sys.getrefcount
    e = dict(call=call, strict=strict, exc="", msg="", keys=[], basic=[], adv=[], refs=[], counts=[], live=-1, alive=True, res=dict(), ref=dict(), kept=True, fresh=True, growth=0, printed=[], inforce=[], warned=0)
    X.printed()
    if X.watched: X.l.y_counts(X.k.ctypes.data); X.l.w_begin(1)
    r = None
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("error" if strict else "always")
        n0 = [get(x) for x in objs]
        try: r = X.run(*pos, **kw); e["how"] = "returned"
        except Exception as x: e["how"] = "raised"; e["exc"] = type(x).__name__; e["msg"] = str(x); x = None
        n1 = [get(x) for x in objs]
    small = [i for i, x in enumerate(objs) if n0[i] < 2**30]           # immortal objects do not count
    e["refs"] = [n1[i] - n0[i] for i in small]; e["warned"] = sum(1 for w in ws if issubclass(w.category, UserWarning))
    if X.watched: X.l.w_end(); X.l.y_counts(X.k.ctypes.data); e["counts"] = X.k.tolist(); e["live"] = int(X.l.w_live()); X.l.w_reset()
    t = X.printed()
    nums = [re.search(k + r"\s*: (\S+)", t) for k in ("Maximum Iterations", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE")]
    e["printed"] = [m.group(1) if m else "?" for m in nums] if t else []
    e["kept"] = all(a == x.tobytes() for a, x in zip(before, arrs))
    if r is not None:
        try: e["keys"] = sorted(r); read(e, r, arrs)
        except (KeyError, TypeError, ValueError, AttributeError, OverflowError) as x: e["msg"] = "unreadable result: %r" % x      # the specification then misses the numbers
    if ref is not None: e["ref"] = ref
    return e, r

def read(e, r, arrs):
    b, a = r.get("basicInfo", {}), r.get("advInfo", {}); e["basic"], e["adv"] = sorted(b), sorted(a)
    x = dict(x=enc.v(r["sol"])); out = [r["sol"]]
    if b: x.update(flag=int(b.get("ExitFlag", -9)), iter=int(b.get("Iterations", -9)), tsetup=enc.d(b.get("Setup_Time", -1)), tsolve=enc.d(b.get("Solve_Time", -1)))
    if a:
        x.update(fval=enc.d(a.get("fval", np.nan)), tldl=enc.d(a.get("ldlTime", -1)), tkkt=enc.d(a.get("kktTime", -1)))
        for k in "yzs":
            if k in a: x[k] = enc.v(a[k]); out.append(a[k])
    e["res"] = x
    ok = lambda k: type(k) is np.ndarray and k.dtype == np.dtype("f8") and k.ndim == 1 and k.flags.owndata and k.flags.writeable and k.dtype.isnative and sys.getrefcount(k) <= 5
    e["fresh"] = bool(all(ok(k) for k in out) and not any(np.shares_memory(k, q) for k in out for q in arrs if q.size) and len({k.ctypes.data for k in out if k.size}) == len([k for k in out if k.size]))

def native(lib, v, o):
    """The library itself on the same data in double precision."""
    d = {s: np.array(x, dtype=np.float64, order="C") for s, x in v.items()}; both = "A" in d and "b" in d
    q = qp.Problem(d["P"], d["c"], d["G"], d["h"], d["A"] if both else None, d["b"] if both else None)
    ob = qp.Obj(lib, q, fmt="row"); o = o or {}
    kw = {k: o[s] for s, k in (("MAXITER", "maxit"), ("ABSTOL", "abstol"), ("RELTOL", "reltol"), ("SIGMA", "sigma")) if s in o}
    ob.setopt(**kw); use = ob.opts(); code = ob.solve(); s = ob.stats(); x, y, z, w = ob.vecs(); ob.cleanup()
    r = dict(x=enc.v(x), y=enc.v(y), z=enc.v(z), s=enc.v(w), flag=int(code), iter=s["iter"], fval=enc.d(s["fval"]))
    lv = o.get("VERBOSE", 0)
    return r, (["%d" % use["maxit"], "%e" % use["abstol"], "%e" % use["reltol"], "%e" % use["sigma"], "%d" % lv] if lv else [])

def decisions(ctx):
    calls = [d["call"] for d in emitted(ctx, "PyCall", "PyCall.cfg", dict(FULL=ctx.n("0", "1")))]
    def distinct(cs): cs.sort(key=json.dumps); return [c for i, c in enumerate(cs) if i == 0 or c != cs[i - 1]]
    calls = distinct(calls); one = [d["call"] for d in emitted(ctx, "PyCall", "PyCall.cfg", dict(FULL="one"))]      # these in any case
    total = len(calls); r = ctx.rng(2); cap = ctx.n(22000, 10**9)
    if total > cap: calls = distinct([calls[int(i)] for i in sorted(r.choice(total, size=cap, replace=False))] + one)
    ctx.notes.append("%d of %d calls that differ in at most two arguments from a well-formed one" % (len(calls), total))
    def go(R):
        X = Ext(True); good = args_of(next(c for c in calls if all(c[s]["k"] == "array" and c[s]["t"] == "f8" for s in ("c", "h", "P", "G"))))
        good = dict(c=np.array([1.0, 1.0]), h=np.array([1.0, 1.0, 1.0]), P=np.eye(2), G=np.array([[1.0, 0], [0, 1], [1, 1]])); want = X.run(**good)["sol"].tobytes()
        for i, call in enumerate(calls):
            R.begin(call)
            v, o = args_of(call), opts_of(call)
            e, res = outcome(X, call, v, o, i % 3, i % 4 == 3)
            if i % 8 == 0 or e["how"] == "raised" and e["exc"] != "TypeError": e["alive"] = X.run(**good)["sol"].tobytes() == want
            R.put(e, 2)
    ctx.both("PyTrace", go, what="decision and effects of every kind of call")

def leaks(ctx):
    """The same call many times: accepted in all forms and rejected at every stage."""
    base = dict(c=[2], h=[3], P=[2, 2], G=[3, 2], A=[1, 2], b=[1])
    def mk(t="f8", eq=True, opts="dict", **k):
        c = {s: dict(k="array", t=t, dims=d) if eq or s not in "Ab" else dict(k="missing", t="", dims=[]) for s, d in base.items()}
        c.update({o: ABSENT for o in OPTS}); c.update(opts=opts, extra=False); c.update(k); return c
    I = lambda i: dict(n="%d" % i, t="int", v=i, pos=False, small=False)
    F = lambda n, pos, small: dict(n=n, t="float", v=0, pos=pos, small=small)
    bad = lambda t, d: dict(k="array", t=t, dims=d)
    calls = [mk(t, eq, **o) for t in ("f8", "f4", ">f8", "g") for eq in (True, False) for o in (dict(), dict(OUTPUT=I(1)), dict(OUTPUT=I(2)), dict(OUTPUT=I(-1)), dict(opts="missing"))]
    calls += [mk(OUTPUT=I(2), MAXITER=I(1000 % 150), ABSTOL=F("0.25", True, True), RELTOL=F("0.125", True, True), SIGMA=F("12.5", True, False))]
    calls += [mk(**{o: w}) for o, w in (("MAXITER", I(1000000)), ("MAXITER", F("0.75", True, True)), ("ABSTOL", F("7.5", True, False)), ("ABSTOL", I(777)), ("RELTOL", F("7.5", True, False)), ("SIGMA", F("-7.5", False, True)), ("VERBOSE", I(-777)), ("VERBOSE", F("0.75", True, True)), ("OUTPUT", F("0.75", True, True)), ("OUTPUT", dict(n="2**70", t="huge", v=0, pos=False, small=False)))]
    calls += [mk(**{s: bad(t, d)}) for s, d in base.items() for t, d in (("i8", d), ("f8", d + [1]), ("f8", [x + 1 for x in d]))]
    calls += [mk(extra=True), mk(opts="other"), mk(c=dict(k="missing", t="", dims=[]))]
    reps = ctx.n(150, 1000)
    def go(R):
        X = Ext(False)
        for i, call in enumerate(calls):
            R.begin(call); v, o = args_of(call), opts_of(call)
            e, _ = outcome(X, call, v, o, i % 3, False)
            kw = dict(v); 
            if o is not None: kw["opts"] = o
            if call["extra"]: kw["Q"] = 1
            def one():
                try: X.run(**kw)
                except Exception: pass
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tracemalloc.start()
                for _ in range(10): one()
                gc.collect(); a, b = sys.getallocatedblocks(), tracemalloc.get_traced_memory()[0]; k = [sys.getrefcount(x) for x in v.values()]
                for _ in range(reps): one()
                gc.collect(); a2, b2 = sys.getallocatedblocks(), tracemalloc.get_traced_memory()[0]; k2 = [sys.getrefcount(x) for x in v.values()]
                tracemalloc.stop()
            e["growth"] = int(max(a2 - a, (b2 - b) // 16, max([y - x for x, y in zip(k, k2)] or [0]), 0)); e["ref"] = e["res"]; e["printed"] = e["inforce"] = []
            R.put(e, 2)
    ctx.both("PyTrace", go, name="repeat", what="repeated calls")

LAYOUTS = ("C", "F", "strided", "reversed", "offset", "readonly", "subclass", "unaligned", "view", "broadcast")
def lay(r, a, how):
    """The same values in another memory layout."""
    if how == "C": return np.ascontiguousarray(a)
    if how == "F": return np.asfortranarray(a)
    if how == "strided": b = np.full([2 * d + 1 for d in a.shape], 77.0).astype(a.dtype); w = b[tuple(slice(0, 2 * d, 2) for d in a.shape)]; w[...] = a; return w
    if how == "reversed": return np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[tuple(slice(None, None, -1) for _ in a.shape)]
    if how == "offset": b = np.full([d + 3 for d in a.shape], -55.0).astype(a.dtype); w = b[tuple(slice(1, 1 + d) for d in a.shape)]; w[...] = a; return w
    if how == "readonly": b = a.copy(); b.flags.writeable = False; return b
    if how == "subclass":
        class Sub(np.ndarray): pass
        return np.matrix(a) if a.ndim == 2 and r.integers(2) else a.copy().view(Sub)
    if how == "unaligned": b = np.zeros(a.nbytes + 1, dtype=np.uint8); w = b[1:].view(np.uint8); w = np.frombuffer(w.data, dtype=a.dtype, count=a.size).reshape(a.shape) if a.size else a; w[...] = a; return w
    if how == "view": return np.ascontiguousarray(a.T).T
    return np.broadcast_to(a, a.shape)

def results(ctx):
    r = ctx.rng(3)
    ps = gen.special() + gen.suite(r, ctx.n(120, 900), 6) + [gen.boxqp(r, 15), gen.mpc(r, 6), gen.portfolio(r, 10), gen.infeasible(r, 3, 4), gen.unbounded(r, 2, 3)]
    ps = [q for q in ps if q]
    q = ps[3]; ps.append(qp.Problem(q.P, q.c * np.nan, q.G, q.h, name="nan")); ps.append(qp.Problem(ps[4].P * 1e200, ps[4].c, ps[4].G, ps[4].h, name="huge"))
    lib = ctx.lib()
    def call_of(v, o, kinds):
        c = {s: dict(k="array", t=kinds.get(s, "f8"), dims=list(v[s].shape)) if s in v else dict(k="missing", t="", dims=[]) for s in ("c", "h", "P", "G", "A", "b")}
        for k in OPTS:
            x = (o or {}).get(k)
            c[k] = ABSENT if x is None else dict(n=repr(x), t="int", v=x, pos=False, small=False) if isinstance(x, int) else dict(n=repr(x), t="float", v=0, pos=x > 0, small=x < 1)
        c.update(opts="missing" if o is None else "dict", extra=False); return c
    def case(X, i, q):
        kinds = {}
        v = dict(c=q.c, h=q.h, P=q.P, G=q.G)
        give = int(r.integers(4)) if q.p == 0 else 0
        if q.p: v.update(A=q.A, b=q.b)
        elif give == 1: v.update(A=np.ones((2, q.n)))                 # only one of the two: ignored
        elif give == 2: v.update(b=np.ones(2))
        elif give == 3: v.update(A=np.zeros((0, q.n)), b=np.zeros(0))
        for s in v:
            kinds[s] = ("f8", "f8", "f8", "f4", "g", ">f8", ">f4", "f2")[int(r.integers(8))] if i % 3 else "f8"
            with np.errstate(all="ignore"): w = v[s].astype(np.longdouble if kinds[s] == "g" else kinds[s])
            how = LAYOUTS[int(r.integers(len(LAYOUTS)))] if i % 2 else "C"
            if how == "unaligned" and kinds[s] == "g": how = "strided"
            v[s] = lay(r, w, how)
        o = None
        if r.integers(4):
            o = dict(OUTPUT=int(r.choice([2, 2, 2, 1, 0, 3])))
            if r.integers(2): o["MAXITER"] = int(r.choice([1, 2, 3, 5, 50, 199]))
            if r.integers(2): o["ABSTOL"] = float(10.0 ** r.uniform(-12, -0.1))
            if r.integers(2): o["RELTOL"] = float(10.0 ** r.uniform(-10, -0.1))
            if r.integers(3) == 0: o["SIGMA"] = float(10.0 ** r.uniform(-3, 3))
            if r.integers(3) == 0: o["VERBOSE"] = int(r.choice([0, 1, 2, 1000]))
            if r.integers(6) == 0: o["unknown"] = "ignored"
        return v, o, kinds
    def go(R):
        X = Ext(True); n = 0
        for rnd in range(ctx.n(6, 40)):
            for q in ps + (gen.sweep(r, ctx.n(100, 500), 4, 120) + gen.giants(r, ctx.n(24, 96)) if rnd == 0 else []):
                n += 1; v, o, kinds = case(X, n, q); R.begin("%s %s %s" % (q.name, {s: (str(a.dtype), a.strides) for s, a in v.items()}, o))
                call = call_of(v, o, kinds); ref, inforce = native(lib, {s: a for s, a in v.items() if s not in "Ab" or ("A" in v and "b" in v)}, o)
                e, _ = outcome(X, call, v, o, n % 3, False, ref); e["inforce"] = inforce
                R.put(e, 2)
    ctx.both("PyTrace", go, name="results", what="results against the native library")
    def threads(R):
        X = Ext(False); small = [q for q in ps if q.n + q.m < 60]
        for k in range(ctx.n(25, 300)):
            T = 4; js = []
            for t in range(T):
                q = small[int(r.integers(len(small)))]; v, o, kinds = case(X, k * T + t, q); o = dict(o or {}, OUTPUT=2); o.pop("VERBOSE", 0)
                js.append((v, o, call_of(v, o, kinds), native(lib, {s: a for s, a in v.items() if s not in "Ab" or ("A" in v and "b" in v)}, o)[0]))
            out = [[] for _ in range(T)]; bar = threading.Barrier(T); R.begin("threads"); before = [[a.tobytes() for a in j[0].values()] for j in js]
            def body(t):
                bar.wait()
                for _ in range(15): out[t].append(X.run(**js[t][0], opts=js[t][1]))
            th = [threading.Thread(target=body, args=(t,)) for t in range(T)]
            for t in th: t.start()
            for t in th: t.join()
            for t in range(T):
                seen = set()
                for a in out[t]:
                    key = a["sol"].tobytes() + a["advInfo"]["z"].tobytes() + repr((a["basicInfo"]["ExitFlag"], a["basicInfo"]["Iterations"])).encode()
                    if key in seen: continue
                    seen.add(key); e = dict(call=js[t][2], strict=False, exc="", msg="", how="returned", keys=sorted(a), basic=[], adv=[], refs=[], counts=[], live=-1, alive=True, res={}, ref=js[t][3], fresh=True, growth=0, printed=[], inforce=[], warned=0)
                    e["kept"] = before[t] == [x.tobytes() for x in js[t][0].values()]
                    read(e, a, []); e["fresh"] = True; R.put(e, 2)
    ctx.both("PyTrace", threads, name="threads", what="calls from several threads")
def C13(ctx): decisions(ctx); leaks(ctx)
def C14(ctx): results(ctx); leaks(ctx)
