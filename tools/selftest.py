#!/usr/bin/env python3
"""Runs the same models and traces with TLC's Java overrides for LinAlg and with the TLA+ definitions only
(-Dvt.pure=true: only the IEEE primitives remain in Java), and requires identical verdicts and state counts."""
import json, os, re, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, enc, gen, qp, rec, tlc

def states(out): return re.findall(r"(\d+) states generated, (\d+) distinct", out)[-1]
def main():
    r = np.random.default_rng(1); lib = qp.Lib(build.lib()); ok = True
    ps = [q for q in gen.special() + gen.suite(r, 12, 3) if q.n + q.m + q.p <= 9]
    with tempfile.TemporaryDirectory() as t:
        cases = {}
        with open(t + "/m", "w") as f:
            for q in ps[:12]: f.write(json.dumps(dict(prob=enc.prob(q), solvable=True, opt=dict(reltol=enc.d(1e-3), abstol=enc.d(1e-3), sigmad=enc.d(0.0)))) + "\n")
        with open(t + "/q", "w") as f, open(t + "/b", "w") as g:
            for i, q in enumerate(ps):
                c = rec.runs(lib, q, str(i), opt=dict(reltol=1e-3, abstol=1e-3), cap=6); f.write(json.dumps(c) + "\n")
                c["it"][1]["w"]["z"][0] = enc.d(enc.undo(c["it"][1]["w"]["z"][0]) * 1.5 + 1); g.write(json.dumps(c) + "\n")      # a wrong iterate
        runs = [("MCQP", "MCQP.cfg", dict(CASES=t + "/m"), False)]
        for p in ("C01", "C03", "C04", "C05", "C12"): runs.append(("QPTrace", "NoBad.cfg", dict(CASES=t + "/q", WANT=p), False))
        for p in ("C03", "C05"): runs.append(("QPTrace", "NoBad.cfg", dict(CASES=t + "/b", WANT=p), True))
        for module, cfg, env, bad in runs:
            a, b = (tlc.run(module, cfg, env, pure=x, workers=1) for x in (False, True))
            same = bool(a["violation"]) == bool(b["violation"]) == bad and (bad or states(a["out"]) == states(b["out"]))
            print("%-8s %-4s overrides %s  pure %s  %.1f s / %.1f s  %s" % (module, env.get("WANT", ""), states(a["out"]), states(b["out"]), a["wall"], b["wall"], "same" if same else "DIFFERENT"), flush=True)
            ok = ok and same
    return 0 if ok else 1
if __name__ == "__main__": sys.exit(main())
