"""C20: the MATLAB gateway and the Simulink blocks, against stand-ins for MATLAB's interface."""
import ctypes as C, json, re
import numpy as np
from . import build, gen, qp, rec, enc
from .checks_blocks import emitted
V, L = C.c_void_p, C.c_long
CLS = dict(cell=1, struct=2, logical=3, char=4, double=6, single=7, int8=8, uint8=9, int32=12)
NP = dict(double="f8", single="f4", logical="u1", char="u2", int32="i4", uint8="u1", int8="i1", cell="i8")
OPTS = ("MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE")

class Gate:
    def __init__(self, src, mex, nv=None):
        l = self.l = C.CDLL(build.gateway(src, mex, nv)); self.keep = []
        l.w_place.restype = V; l.w_place.argtypes = [V, C.c_size_t]; l.w_unplace.argtypes = [V, C.c_size_t]; l.w_live.restype = L; l.w_end.restype = L; l.w_begin.argtypes = [L]; l.y_counts.argtypes = [V]
        l.x_new.restype = V; l.x_new.argtypes = [C.c_int, C.c_int, C.c_int, C.c_int, V, V, V, V, L]; l.x_struct.restype = V; l.x_struct.argtypes = [L, C.c_int, V, V]
        for f in ("x_msg", "x_printed"): getattr(l, f).restype = C.c_char_p
        l.x_fieldname.restype = C.c_char_p; l.x_fieldname.argtypes = [V, C.c_int]
        l.x_out.restype = V; l.x_field.restype = V; l.x_field.argtypes = [V, C.c_char_p]; l.x_info.argtypes = [V, V]; l.x_data.restype = V; l.x_data.argtypes = [V]
        if mex: l.x_call.restype = L; l.x_call.argtypes = [C.c_int, C.c_int, V]
    def place(self, a):
        a = np.ascontiguousarray(a); p = self.l.w_place(a.ctypes.data, a.nbytes); self.keep.append((p, a)); return p
    def kept(self): return all(C.string_at(p, a.nbytes) == a.tobytes() for p, a in self.keep)
    def release(self):
        for p, a in self.keep: self.l.w_unplace(p, a.nbytes)
        self.keep = []
    def counts(self): k = np.zeros(3, dtype=np.int64); self.l.y_counts(k.ctypes.data); return k.tolist()
    def array(self, d, M):
        """d: class, sparse, cplx, dims; M: values (dense, shape of the first two dims)."""
        dims = np.array(d["dims"], dtype=np.int64); pr = ir = jc = None; nz = 0
        if d["sparse"]:
            j, i, v = qp.dens2ccs(np.asarray(M, dtype=float).reshape(d["dims"])); nz = max(int(j[-1]), 1); t = v if d["cls"] == "double" else v.astype("u1")
            pr, ir, jc = self.place(t[:nz]), self.place(i[:nz]), self.place(j)
        elif int(np.prod(dims)): pr = self.place(np.resize(np.asarray(M, dtype=float).ravel(order="F"), int(np.prod(dims))).astype(NP.get(d["cls"], "f8")))
        return self.l.x_new(CLS[d["cls"]], int(d["sparse"]), int(d["cplx"]), len(dims), dims.ctypes.data, pr, ir, jc, nz)
    def struct(self, fields, count=1):
        names = [k.encode() for k in fields]; na = (C.c_char_p * max(len(names), 1))(*names); va = (V * max(len(names), 1))(*fields.values())
        return self.l.x_struct(count, len(names), na, va)
    def info(self, a): o = np.zeros(7, dtype=np.int64); self.l.x_info(a, o.ctypes.data); return o.tolist()
    def desc(self, a): i = self.info(a); return dict(cls={v: k for k, v in CLS.items()}.get(i[0], "?"), sparse=bool(i[1]), cplx=bool(i[2]), dims=i[4:6])
    def values(self, a):
        if not a: return np.zeros(0)
        i = self.info(a); k = i[4] * i[5]; return np.frombuffer(C.string_at(self.l.x_data(a), 8 * k), dtype=float) if k else np.zeros(0)
    def names(self, a): return [self.l.x_fieldname(a, i).decode() for i in range(self.info(a)[6])]
    def get(self, a, f): return self.values(self.l.x_field(a, f.encode()))

SC = lambda cls: dict(cls=cls, sparse=False, cplx=False, dims=[1, 1])
def option(X, o):
    n = o["n"]
    if n == "[]": return X.array(dict(SC("double"), dims=[0, 0]), [])
    if n == "cell": return X.array(SC("cell"), [0])
    if n == "complex": return X.array(dict(SC("double"), cplx=True), [0.5])
    if n == "char": return X.array(SC("char"), [1])
    m = re.match(r"(int32|logical|single|uint8)\((.*)\)", n)
    return X.array(SC(m.group(1) if m else "double"), [float("nan") if n == "NaN" else float(m.group(2) if m else n)])
def value(o): m = re.search(r"\((.*)\)", o["n"]); x = float(m.group(1) if m else o["n"]) if o["n"] not in ("[]", "cell", "complex", "char") else 0.0; return 0.0 if x != x or abs(x) > 1e15 else x

def data(call, q=None):
    """Values for every array; a solvable problem when the shapes allow."""
    v = {}
    for k, s in enumerate(("P", "c", "A", "b", "G", "h")):
        d = call[s]["dims"]; N = int(np.prod(d[:2])); M = (((np.arange(N) * 7 + 3 * k) % 5) - 1.5) / 2
        if s == "P" and d[0] == d[1]: M = 2 * np.eye(d[0])
        if s == "h": M = np.abs(M) + 1
        v[s] = np.asarray(M, dtype=float).reshape(d[:2], order="F")
    if q is not None: v = dict(P=q.P, c=q.c.reshape(-1, 1), A=q.A, b=q.b.reshape(-1, 1), G=q.G, h=q.h.reshape(-1, 1))
    return {s: v[s].reshape(call[s]["dims"], order="F") if v[s].size == int(np.prod(call[s]["dims"])) else v[s] for s in v}

def reference(lib, call, v, perm, use, order, eq):
    """The library itself on the same data."""
    q = qp.Problem(v["P"], v["c"].ravel(), v["G"], v["h"].ravel(), v["A"] if eq else None, v["b"].ravel() if eq else None)
    own = "o" in order and call["opts"] == "struct" and call["PERMUT"]["cls"] != "absent" and call["PERMUT"]["valid"] and len(perm) == q.n + q.m + q.p
    ob = qp.Obj(lib, q, perm=perm if own else None); kw = {}
    for k, s in (("maxit", "MAXITER"), ("abstol", "ABSTOL"), ("reltol", "RELTOL"), ("sigma", "SIGMA")):
        if s in use: kw[k] = int(value(use[s])) if k == "maxit" else value(use[s])
    ob.setopt(**kw); cur = ob.opts(); code = ob.solve(); s = ob.stats(); w = ob.vecs(); ob.cleanup()
    return dict(x=enc.v(w[0]), y=enc.v(w[1]), z=enc.v(w[2]), s=enc.v(w[3]), flag=int(code), iter=s["iter"], fval=enc.d(s["fval"])), cur

def gate_call(X, lib, call, v, perm, i):
    order = {4: "PcGh", 5: "PcGho", 6: "PcAbGh", 7: "PcAbGho"}.get(call["nrhs"]) or ("PcAbGhooo"[:call["nrhs"]])
    fields = {}; use = {}
    if "o" in order:
        names = [o for o in OPTS if call[o]["t"] != "absent"]
        if i % 2: names = names[::-1]
        for o in names: fields[o.lower() if call[o]["low"] else o] = option(X, call[o]); use[o] = call[o]
        if call["PERMUT"]["cls"] != "absent":
            pv = perm + 1; 
            if not call["PERMUT"]["valid"]: pv = pv.copy(); pv[-1] = (pv[0] if i % 2 else len(pv) + 1) if len(pv) > 1 else 2
            fields[call["PERMUT"]["low"]] = X.array({k: call["PERMUT"][k] for k in ("cls", "sparse", "cplx", "dims")}, pv if not call["PERMUT"]["sparse"] else np.resize(pv, call["PERMUT"]["dims"]))
        fields["unrelated"] = X.array(SC("double"), [3.0])
    def arg(s):
        if s != "o": return X.struct({"a": X.array(SC("double"), [1.0])}) if call[s]["cls"] == "struct" else X.array(call[s], v[s])
        return X.struct(fields) if call["opts"] == "struct" else X.struct(fields, 0) if call["opts"] == "void" else X.array(SC("double"), [5.0])
    args = [arg(s) for s in order]; pa = (V * max(len(args), 1))(*args)
    X.counts(); r = X.l.x_call(call["nlhs"], len(args), pa)
    e = dict(call=call, how="error" if r else "returned", msg=X.l.x_msg().decode(), counts=X.counts(), outs=[], basic=[], adv=[], res={}, ref={}, kept=X.kept(), alive=True, printed=[], inforce=[])
    t = X.l.x_printed().decode()
    if not r and call["nlhs"] and e["counts"][1]:
        o = [X.l.x_out(k) for k in range(8)]; o = [a for a in o if a]; e["outs"] = [X.desc(a) for a in o]
        res = dict(x=enc.v(X.values(o[0])) if o else [])
        if len(o) > 1: b = o[1]; e["basic"] = X.names(b); g = lambda f: (X.get(b, f).tolist() or [-9])[0]; res.update(flag=int(g("ExitFlag")), iter=int(g("Iterations")), tsetup=enc.d(g("Setup_Time")), tsolve=enc.d(g("Solve_Time")))
        if len(o) > 2: a = o[2]; e["adv"] = X.names(a); g2 = lambda f: (X.get(a, f).tolist() or [-9])[0]; res.update(fval=enc.d(g2("Fval")), tkkt=enc.d(g2("KKT_Time")), tldl=enc.d(g2("LDL_Time")), **{k: enc.v(X.get(a, k)) for k in "yzs"})
        e["res"] = res
        if call["opts"] != "struct" or "o" not in order: use = {}
        eq = call["nrhs"] > 5
        try: e["ref"], cur = reference(lib, call, v, perm, use, order, eq)
        except (AssertionError, ValueError): cur = None         # no problem at all: the call should not have been accepted
        lv = int(value(use["VERBOSE"])) if "VERBOSE" in use else 0
        nums = [re.search(k + r"\s*: (\S+)", t) for k in ("Maximum Iterations", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE")]
        e["printed"] = [m.group(1) if m else "?" for m in nums] if t else []
        if cur: e["inforce"] = ["%d" % cur["maxit"], "%e" % cur["abstol"], "%e" % cur["reltol"], "%e" % cur["sigma"], "%d" % lv] if lv else []
        if cur and cur["maxit"] == 0: e["ref"]["fval"] = e["res"].get("fval", e["ref"]["fval"])      # no iterate was tested
    X.l.w_reset(); X.release(); return e

def perm_for(r, call):
    d = call["PERMUT"]["dims"]; return r.permutation(int(max(d[0], d[1])) if call["PERMUT"]["cls"] != "absent" else 1)

def decisions(ctx):
    calls = [d["call"] for d in emitted(ctx, "MexCall", "MexCall.cfg", dict(FULL=ctx.n("0", "1")))]
    calls = [json.loads(s) for s in sorted({json.dumps(c, sort_keys=True) for c in calls})]
    total = len(calls); r = ctx.rng(2); cap = ctx.n(15000, 10**9); lib = ctx.lib()
    if total > cap: calls = [calls[int(i)] for i in sorted(r.choice(total, size=cap, replace=False))]
    ctx.notes.append("%d of %d gateway calls that differ in at most two arguments from a well-formed one" % (len(calls), total))
    def go(R):
        X = Gate("matlab/qpSWIFT_mex.c", True)
        for i, call in enumerate(calls):
            R.begin(call); R.put(gate_call(X, lib, call, data(call), perm_for(r, call), i), 2)
    ctx.both("MexTrace", go, what="decision and effects of every kind of gateway call")

def results(ctx):
    r = ctx.rng(3); lib = ctx.lib()
    ps = [q for q in gen.special() + gen.suite(r, ctx.n(150, 900), 6) + [gen.boxqp(r, 15), gen.mpc(r, 6), gen.portfolio(r, 10), gen.infeasible(r, 3, 4), gen.unbounded(r, 2, 3)] if q]
    none = dict(n="absent", t="absent", neg=False, nan=False, le200=False, le1=False, low=False)
    def opt(x, cls=None): return dict(n="%s(%d)" % (cls, x) if cls else repr(float(x)), t="real", neg=False, nan=False, le200=True, le1=True, low=bool(r.integers(2)))
    def go(R):
        X = Gate("matlab/qpSWIFT_mex.c", True)
        for k in range(ctx.n(4, 30)):
            for i, q in enumerate(ps + (gen.sweep(r, ctx.n(60, 300), 4, 120) + gen.giants(r, ctx.n(24, 96)) if k == 0 else [])):
                A = lambda s, d: dict(cls="double", sparse=s, cplx=False, dims=d); vec = lambda k: [k, 1] if r.integers(2) else [1, k]
                has = bool(r.integers(4)); call = dict(P=A(True, [q.n, q.n]), c=A(False, vec(q.n)), A=A(True, [q.p, q.n]), b=A(False, vec(q.p)), G=A(True, [q.m, q.n]), h=A(False, vec(q.m)), opts="struct", nrhs=(6 if q.p else 4) + has, nlhs=int(r.choice([3, 3, 2, 1])))
                call.update({o: none for o in OPTS}); N = q.n + q.m + q.p
                call["PERMUT"] = dict(cls="absent", sparse=False, cplx=False, dims=[1, 1], valid=True, low="PERMUT")
                if has:
                    if r.integers(2): call["MAXITER"] = opt(int(r.choice([0, 1, 2, 5, 200])), [None, "int32", "uint8"][int(r.integers(3))])
                    if r.integers(2): call["ABSTOL"] = opt(10.0 ** r.uniform(-12, 0))
                    if r.integers(2): call["RELTOL"] = opt(10.0 ** r.uniform(-10, 0))
                    if r.integers(3) == 0: call["SIGMA"] = opt(10.0 ** r.uniform(-3, 3))
                    if r.integers(3) == 0: call["VERBOSE"] = opt(int(r.choice([0, 1, 3])), "int32")
                    if r.integers(2): call["PERMUT"] = dict(call["PERMUT"], cls="double", dims=vec(N), low=("PERMUT", "permut", "Permut")[int(r.integers(3))])
                R.begin(call); R.put(gate_call(X, lib, call, data(call, q), perm_for(r, call), i), 2)
    ctx.both("MexTrace", go, name="results", what="gateway results against the library")

def blocks(ctx):
    """Simulink blocks: every history of steps over a few problems, on freshly drawn problems."""
    hs = [d["hist"] for d in emitted(ctx, "SimBlock", "SimBlock.cfg", dict(PROBS="3", STEPS=ctx.n("4", "5")))]
    hs.sort(key=json.dumps); r = ctx.rng(4); lib = ctx.lib(); cap = ctx.n(500, 6000)
    if len(hs) > cap: hs = [hs[int(i)] for i in sorted(r.choice(len(hs), size=cap, replace=False))]
    def go(R):
        for eq, nv in ((False, None), (True, None), (False, 7), (True, 1), (False, 2), (True, 40)):
            src = "simulink/qpSWIFT_sfunc%s.c" % ("_e" if eq else ""); now = build.nv(src)
            if now is None and nv is not None: continue
            X = Gate(src, False, nv); l = X.l; nv = nv or now or 3
            l.s_new.restype = V; l.s_ports.restype = L; l.s_clock.argtypes = [V]; l.s_ports.argtypes = [V, V]; l.s_dim_in.argtypes = l.s_dim_out.argtypes = [V, C.c_int, C.c_int]; l.s_in.argtypes = [V, C.c_int, V, V]; l.s_out.argtypes = [V, C.c_int, V]; l.s_step.argtypes = l.s_end.argtypes = [V]
            pool = []; k = 0
            for top in gen.strata(r, ctx.n(12, 60), 1, 136):               # one long dimension; more variables than are published
                n = nv + int(r.integers(0, 4)) if k % 3 else max(top, nv); m = top if k % 3 == 1 else int(r.integers(1, 6)); p = 0 if not eq else min(n, top if k % 3 == 2 else int(r.integers(1, 4))); k += 1
                if k % 3 == 0 and eq: n = top = max(top, nv); p = max(1, top - 1)
                for _ in range(3): pool.append(gen.sized(r, n, m, p))
            while len(pool) < ctx.n(80, 400):
                n = nv + (int(r.integers(1, 4)) if r.random() < 0.3 else 0); p = int(r.integers(1, min(n, 2) + 1)) if eq else 0
                q = gen.kktqp(r, n, int(r.integers(1, 6)), p, kind="in"[len(pool) % 2]) if n < 10 else gen.sized(r, n, int(r.integers(1, 6)), p)
                if q: pool.append(q)
            for hi, hist in enumerate(hs if nv == now else hs[::6]):
                a = pool[int(r.integers(len(pool)))]; dims = (a.n, a.m, a.p)
                same = [q for q in pool if (q.n, q.m, q.p) == dims]; ps = [same[int(r.integers(len(same)))] for _ in range(3)]
                if hi % 3 == 0: b = ps[0]; ps[1] = qp.Problem(b.P, -b.c, b.G, b.h, b.A, b.b); ps[2] = qp.Problem(b.P, b.c, b.G, b.h + 1.0, b.A, b.b)
                if hi % 7 == 1: ps[1] = qp.Problem(ps[1].P, ps[1].c * np.nan, ps[1].G, ps[1].h, ps[1].A, ps[1].b)      # a step that fails
                S, O, evs = {}, {}, []
                for ev in hist:
                    R.begin(dict(block=src, event=ev))
                    b = ev["b"]
                    if ev["do"] == "start":
                        S[b] = l.s_new(); o = np.zeros(2 + 48, dtype=np.int64); st = l.s_ports(S[b], o.ctypes.data); o = o.tolist()
                        w = [a.n * a.n, a.n, a.n * a.m, a.m] if not eq else [a.n * a.n, a.n, a.n * a.p, a.p, a.n * a.m, a.m]
                        for i, k in enumerate(w): l.s_dim_in(S[b], i, k)
                        O[b] = [np.full(nv + 2 * 8 if i == 0 else 1 + 2 * 8, 7.25) for i in range(5)]
                        for i in range(5): l.s_out(S[b], i, O[b][i][8:].ctypes.data)
                        evs.append(dict(do="start", b=b, nin=o[0], nout=o[1], width=o[2 + 12:2 + 12 + max(min(o[1], 12), 0)], nv=nv, open=o[2:2 + max(o[0], 1)], clock=bool(l.s_clock(S[b])), feed=o[2 + 36:2 + 36 + max(o[0], 1)], states=int(st), contiguous=o[2 + 24:2 + 24 + o[0]]))
                    elif ev["do"] == "step":
                        q = ps[ev["k"] - 1]; ins = [q.P.ravel(order="F"), q.c, q.A.ravel(order="F"), q.b, q.G.ravel(order="F"), q.h]
                        if not eq: del ins[2:4]
                        keep = []
                        for i, x in enumerate(ins):
                            sig = X.place(x); sc = np.full(2 * len(x) + 1, np.nan); sc[1::2] = x[::-1]; base = X.place(sc)
                            ptr = np.array([base + 8 * (2 * (len(x) - 1 - k) + 1) for k in range(len(x))], dtype=np.int64); keep.append(ptr); l.s_in(S[b], i, sig, ptr.ctypes.data)
                        other = [y.tobytes() for d in O if d != b for y in O[d]]
                        X.counts(); l.w_begin(1); l.s_step(S[b]); l.w_end(); k = X.counts(); live = int(l.w_live())
                        out = [y[8:-8] for y in O[b]]; edge = all(np.all(y[:8] == 7.25) and np.all(y[-8:] == 7.25) for y in O[b])
                        ob = qp.Obj(lib, q, fmt="col"); code = ob.solve(); s = ob.stats(); ref = dict(x=enc.v(ob.vecs()[0][:nv]), flag=int(code), iter=s["iter"]); ob.cleanup()
                        evs.append(dict(do="step", b=b, out=dict(x=enc.v(out[0]), flag=int(out[1][0]), iter=int(out[2][0]), tsetup=enc.d(out[3][0]), tsolve=enc.d(out[4][0])), ref=ref, kept=X.kept(), live=live, counts=k,
                                        others=bool(edge and other == [y.tobytes() for d in O if d != b for y in O[d]])))
                        l.w_reset(); X.release()
                    else:
                        for x in S.values(): l.s_end(x)
                        evs.append(dict(do="stop", b=0))
                R.put(dict(eq=eq, evs=evs), len(evs) + 1)
    ctx.both("SimTrace", go, what="Simulink blocks")
def C20(ctx): decisions(ctx); results(ctx); blocks(ctx)
