"""Recorders: drive the real library and describe what was observed."""
import time
import numpy as np
from . import qp, enc

def obs(o, code=None, limit=None, wall=None):
    st = o.stats(); op = o.opts()
    r = dict(w=enc.w(*o.vecs()), sg=enc.d(op["sigma"]), ap=enc.d(st["ap"]), ad=enc.d(st["ad"]))
    if code is not None:
        r.update(code=int(code), flag=st["flag"], iter=st["iter"], limit=limit, fval=enc.d(st["fval"]), nrx=enc.d(st["nrx"]), nry=enc.d(st["nry"]), nrz=enc.d(st["nrz"]),
                 nmu=enc.d(st["nmu"]), t=[enc.d(st[k]) for k in ("tsetup", "tsolve", "tkkt", "tldl")], wall=enc.d(wall))
    return r

def triples(m): return [] if m is None else sorted([[m["ir"][k] + 1, j + 1, enc.d(m["pr"][k])] for j in range(m["n"]) for k in range(m["jc"][j], m["jc"][j + 1])], key=lambda t: (t[1], t[0]))

def runs(lib, q, id, opt=None, perm=None, fmt="sparse", sigma_d=0.0, cap=25, rng=None, zeros=None, nulls=(), p=None, keep=None, far=(), extreme=False, held=None, huge=None, outcome=False, light=False):
    """One QPTrace case.  far: further limits, if no limit up to cap sufficed (only C01 and C04 can judge those)."""
    opt = dict(opt or {})
    if rng is not None: seed = int(rng.integers(1 << 30))
    def fresh():
        g = None if rng is None else np.random.default_rng(seed)
        t0 = time.perf_counter(); o = qp.Obj(lib, q, fmt=fmt, perm=perm, sigma_d=sigma_d if fmt == "sparse" else 0.0, rng=g, zeros=zeros, nulls=nulls, p=p)
        if fmt != "sparse" and sigma_d: o.setopt(sigma_d=sigma_d)
        o.setopt(**opt); o.t0 = t0; return o
    o = fresh(); it = [obs(o)]; op = o.opts(); pu = o.perm_used()
    if held is not None: held += [triples(o.mat(k)) for k in (0, 1, 2)]
    def solve(lim):
        o = fresh()
        if lim is not None: o.setopt(maxit=lim)
        lim = o.opts()["maxit"]; c = o.solve(); wall = time.perf_counter() - o.t0
        r = obs(o, c, lim, wall); o.cleanup()
        if keep is not None: keep["perm"] = None if o.perm is None else o.perm.tolist()
        return r
    o.cleanup()
    L, extra = 0, 0
    if light: L, outcome = cap + 1, True
    while L <= cap:
        r = solve(L); it.append(r); L += 1
        if r["code"] == 0:
            extra += 1
            if extra == 2: break
    more = []
    if not extra:
        more = [solve(k) for k in far]; stop = [r["iter"] for r in more if r["code"] == 0]
        if stop: it += [solve(k) for k in range(L, max(L, min(200, min(stop))) + 2)]       # it did converge: every limit on the way
        else: it += more
    if outcome and not extra: it.append(solve(None))
    if extra: it.append(solve(None) if op["maxit"] >= L else solve(L))
    if extra and huge is not None: it.append(solve(huge)); it[-1]["limit"] = min(it[-1]["limit"], 2**31 - 1)
    return dict(id=id, name=q.name, prob=enc.prob(q), perm=[int(v) + 1 for v in pu], it=it, solvable=bool(q.meta.get("solvable")), extreme=extreme,
                opt=dict(reltol=enc.d(op["reltol"]), abstol=enc.d(op["abstol"]), sigmad=enc.d(op["sigma_d"])))

def final(lib, q, id, opt=None, perm=None, fmt="sparse", sigma_d=0.0, cert=None, wellposed=False, strong=0.0, rng=None, zeros=None):
    """One FinalTrace case."""
    t0 = time.perf_counter(); o = qp.Obj(lib, q, fmt=fmt, perm=perm, sigma_d=sigma_d if fmt == "sparse" else 0.0, rng=rng, zeros=zeros)
    o.setopt(**(opt or {})); op = o.opts(); c = o.solve(); r = obs(o, c, op["maxit"], time.perf_counter() - t0); o.cleanup()
    cw = [] if cert is None else [enc.w(*cert)]
    return dict(id=id, name=q.name, prob=enc.prob(q), opt=dict(reltol=enc.d(op["reltol"]), abstol=enc.d(op["abstol"]), sigmad=enc.d(op["sigma_d"])),
                r=r, cert=cw, wellposed=bool(wellposed), strong=enc.d(strong))
