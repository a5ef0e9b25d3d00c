------------------------------ MODULE QPTrace -------------------------------
(* Conformance of recorded solver runs with QP.tla.

   One case is one problem with one set of options, observed through the
   public API only.  it[1] is the object after setup; then for the limits
   0, 1, 2, ... one fresh object each, solved under that limit:
     r.code, r.iter           returned code, iteration count
     r.w                      x, y, z, s afterwards
     r.ap, r.ad, r.sg         last step lengths, centering parameter left
     r.nrx .. r.fval, r.t     statistics
   The run is accepted if each observation is the result of the action of the
   specification that is enabled: Setup, then Step until the convergence test
   holds, Converge, and nothing after that.

   A failed clause is put into `bad` as <<property, clause>>; WANT selects the
   property whose clauses are evaluated.                                    *)
EXTENDS QP, TLC, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)
WANT  == IOEnv.WANT

VARIABLES c, l, w, k, sigma, phase, bad
vars == <<c, l, w, k, sigma, phase, bad>>

Case == Cases[c]
Q    == Case.prob
Opt  == Case.opt
Runs == Case.it
R(i) == Runs[i]

\* ----- clauses -----------------------------------------------------------
Clause(prop, name, val) == IF WANT # prop THEN {} ELSE IF val THEN {} ELSE {<<prop, name>>}
Eps9 == DParse("1e-9")

ShiftOk(v, t, viol) ==          \* v is t, or t shifted by 1 + viol
  LET tiny == DMul(Fuzz, DAdd(DOne, VNormInf(t)))
      n    == Len(t)
      tol  == [i \in 1..n |-> DMul(DInt(1000), tiny)]
      unsh == VNear(v, t, tol)
      shf  == VNear(v, [i \in 1..n |-> DAdd(t[i], DAdd(DOne, viol))], tol)
  IN IF DLt(DMul(DInt(1000), tiny), viol) THEN shf
     ELSE IF DLt(viol, DMul(DInt(-1000), tiny)) THEN unsh ELSE shf \/ unsh

\* the error allowed in a computed direction, given the growth of the
\* elimination (dynamic regularisation makes it large for some patterns)
DirTol(growth) == IF DLt(growth, DParse("1e6")) THEN DParse("1e-4") ELSE DParse("5e-2")
Usable(s) == s.ok /\ DLt(s.growth, DParse("1e10"))
BlockNear(got, want, dwant, all, tau) ==  \* |got - want| <= tau |direction| + noise of the iterate and of the whole direction
  LET tol == DAdd(DAdd(DMul(tau, VNormInf(dwant)), DMul(DParse("1e-6"), VNormInf(all))),
                  DMul(DParse("1e-7"), DMax(VNormInf(want), DParse("1e-3"))))
  IN VNear(got, want, [i \in 1..Len(want) |-> tol])

SetupClauses(u) ==
  LET t == VSub(Q.h, SpMul(Q.G, u.x, Q.m))
      i == InitPoint(Q, Case.perm)
      tau == DirTol(i.growth)
      N  == NK(Q)
      K  == KktDense(Q, [j \in 1..Q.m |-> DOne])
      el == TLCEval(RegElim(K, Case.perm))
      T  == DMul(DMul(DParse("1e-15"), DInt(N * N)),
                 DMul(DMul(el.growth, VMax([j \in 1..N |-> VNormInf(K[j])])), VNormInf(u.x \o u.y \o t)))
      rows(dev, abs) == (~el.amb /\ Part(el.e, Q.n + Q.p, Q.m) = VZero(Q.m)) =>
                          VLe(VAbs(dev), [j \in 1..Len(dev) |-> DAdd(T, DMul(DParse("1e-14"), abs[j]))])
      all == i.w.x \o i.w.y \o t
      w0 == [x |-> u.x, y |-> u.y, z |-> VNeg(t), s |-> t]
  IN IF Case.extreme THEN Clause("C03", "initial point is interior", Interior(u))
     ELSE Clause("C03", "initial point is interior", Interior(u))
     \cup Clause("C05", "initial slacks", ShiftOk(u.s, t, DNeg(VMin(t))))
     \cup Clause("C05", "initial multipliers", ShiftOk(u.z, VNeg(t), VMax(t)))
     \cup Clause("C05", "initial primal point", Usable(i) => BlockNear(u.x, i.w.x, i.w.x, all, tau))
     \cup Clause("C05", "equations of stationarity hold at the start",
                 rows(VSub(VHad(Part(el.e, 0, Q.n), u.x), Rx(Q, w0)), VAdd(RxAbs(Q, w0), SpMulTA(Q.G, VAdd(VAbs(Q.h), SpMulA(Q.G, u.x, Q.m)), Q.n))))
     \cup Clause("C05", "equations of the equalities hold at the start",
                 rows(VSub(VHad(Part(el.e, Q.n, Q.p), u.y), Ry(Q, w0)), RyAbs(Q, w0)))
     \cup Clause("C05", "initial equality multipliers", Usable(i) => BlockNear(u.y, i.w.y, i.w.y, all, tau))

\* v1 = v + a dv with the rule a = min(0.99 boundary, 1)
StepRule(v, v1, a) ==
  LET r == VMin(VQuo(v1, v))
      cent == DParse("0.01")
  IN /\ DLt(DZero, a) /\ DLe(a, DOne)
     /\ DLe(DSub(cent, Eps9), r)
     /\ \/ DEq(a, DOne)
        \/ DNear(r, cent, DParse("1e-8"))
        \* unblocked: no component decreases noticeably
        \/ DNear(a, DParse("0.99"), Eps9) /\ DLe(DParse("0.9999999"), r)

AmbigBoundary(v, dv) ==      \* rounding decides whether there is a limit at all
  /\ \A i \in 1..Len(v) : DLe(DMul(DParse("-1e-6"), v[i]), dv[i])
  /\ \E i \in 1..Len(v) : DLe(dv[i], DMul(DParse("1e-9"), v[i]))

\* magnitudes beyond any accuracy: bounds like 1e20 that stand for none, and diverging iterates of problems without a solution
Wild(u) == Case.extreme \/ (~Case.solvable /\ DLt(DParse("1e5"), DAdd(VNormInf(u.z), VNormInf(u.x))))

StepClauses(u, r) ==
  LET v   == r.w
      f   == DSub(DOne, r.ap)
      it  == Iterate(Q, u, Case.perm, sigma, Opt.sigmad)
      ok  == Usable(it.d) /\ it.aff.ok
      tau == DirTol(it.d.growth)
      sgok == ok /\ ~AmbigBoundary(u.s, it.aff.s) /\ ~AmbigBoundary(u.z, it.aff.z)
      \* direction for the centering parameter actually used
      tgt == IF DLt(Opt.sigmad, sigma)
             THEN VAdd(VSub(Comp(u), VHad(it.aff.s, it.aff.z)), [i \in 1..Q.m |-> DMul(r.sg, Mu(Q, u))])
             ELSE VAdd(Comp(u), [i \in 1..Q.m |-> DMul(Opt.sigmad, Mu(Q, u))])
      d   == Newton(Q, u, Case.perm, tgt)
      e   == Advance(u, d, r.ap, r.ad)
      all == d.x \o d.y \o d.z
      \* z ds + s dz = target, as satisfied by the step made
      no(a, t0, t1) == VScale(DDiv(DOne, a), VAdd(VAbs(t0), VAbs(t1)))
      cdev == VSub(VAdd(VHad(u.z, VScale(DDiv(DOne, r.ap), VSub(v.s, u.s))),
                        VHad(u.s, VScale(DDiv(DOne, r.ad), VSub(v.z, u.z)))), tgt)
      csum == VAdd(VAbs(Comp(u)), VAdd(VAbs(VHad(it.aff.s, it.aff.z)), [i \in 1..Q.m |-> DMul(DMax(DAbs(r.sg), DAbs(Opt.sigmad)), Mu(Q, u))]))
      cnoi == VAdd(VHad(u.z, no(r.ap, u.s, v.s)), VHad(u.s, no(r.ad, u.z, v.z)))
      ctol == [i \in 1..Q.m |-> DAdd(DMul(tau, DAdd(csum[i], DMul(DParse("1e-3"), VNormInf(csum)))), DMul(DParse("1e-13"), cnoi[i]))]
      q   == VQuo(u.s, u.z)
      spread == DLt(DParse("1e-6"), VMin(q)) /\ DLt(VMax(q), DParse("1e6"))
      step(a, x) == VScale(a, x)
      lift == DDiv(DMul(DParse("2e-7"), r.ap), r.ad)
      K   == KktDense(Q, VQuo(u.s, u.z))
      el  == TLCEval(RegElim(K, Case.perm))
      bigK == VMax([i \in 1..Len(K) |-> VNormInf(K[i])])
      rows == TLCEval(LinRows(Q, u, v, r.ap, r.ad, el, bigK))
      row(t) == (~el.amb /\ DLt(DZero, r.ap) /\ DLt(DZero, r.ad)) => VLe(VAbs(t.dev), t.tol)
      shr(new, old, sc, dual, rw) ==
        \/ VNear(new, VScale(f, old), VAdd(VAdd(VScale(DParse("1e-6"), sc), VScale(lift, VAbs(dual))), VScale(r.ap, rw.tol)))
        \* replaced pivots amplify rounding errors for some patterns
        \/ ~Usable([ok |-> ~el.amb, growth |-> el.growth])
        \/ /\ ~DLt(el.growth, DParse("1e6"))
           /\ VNear(new, VScale(f, old), VAdd(VScale(DParse("1e-2"), sc), VScale(lift, VAbs(dual))))
      wildY == \/ ~Case.solvable /\ DLt(DParse("1e5"), VNormInf(u.y))     \* contradictory equalities: y grows by 1e7 a step
               \/ DLt(DParse("0.9"), Opt.sigmad) /\ DLt(DParse("1e3"), Mu(Q, u))       \* a step rule that makes the duality measure grow
  IN IF Wild(u) THEN Clause("C03", "iterate is interior", Interior(v))
       \cup Clause("C03", "primal step length rule", StepRule(u.s, v.s, r.ap))
       \cup Clause("C03", "dual step length rule", StepRule(u.z, v.z, r.ad))
     ELSE Clause("C03", "iterate is interior", Interior(v))
     \cup Clause("C03", "primal step length rule", StepRule(u.s, v.s, r.ap))
     \cup Clause("C03", "dual step length rule", StepRule(u.z, v.z, r.ad))
     \cup Clause("C03", "equality residual shrinks by 1 - step",
                 shr(Ry(Q, v), Ry(Q, u), VAdd(RyAbs(Q, u), RyAbs(Q, v)), VSub(v.y, u.y), rows.y))
     \cup Clause("C03", "inequality residual shrinks by 1 - step",
                 shr(Rz(Q, v), Rz(Q, u), VAdd(RzAbs(Q, u), RzAbs(Q, v)), VSub(v.z, u.z), rows.z))
     \cup Clause("C03", "equalities are linear along the step", row(rows.y))
     \cup Clause("C03", "inequalities are linear along the step", row(rows.z))
     \cup Clause("C05", "equations of stationarity hold", row(rows.x))
     \cup Clause("C05", "equations of the equalities hold", row(rows.y))
     \cup Clause("C05", "equations of the inequalities hold", row(rows.z))
     \cup (IF WANT \notin {"C05", "C15"} \/ wildY THEN {} ELSE
           Clause(WANT, "centering parameter",
                  sgok => DNear(r.sg, it.sigma, DAdd(DParse("1e-5"), DMul(DParse("1e-3"), DAbs(it.sigma)))))
           \cup Clause(WANT, "complementarity target", ok => VLe(VAbs(cdev), ctol))
           \cup Clause(WANT, "direction x", ok /\ spread => BlockNear(v.x, e.x, step(r.ap, d.x), step(r.ap, all), tau))
           \cup Clause(WANT, "direction y", ok /\ spread => BlockNear(v.y, e.y, step(r.ad, d.y), step(r.ad, all), tau))
           \cup Clause(WANT, "direction z", ok /\ spread => BlockNear(v.z, e.z, step(r.ad, d.z), step(r.ad, all), tau))
           \cup Clause(WANT, "direction s", ok /\ spread => BlockNear(v.s, e.s, step(r.ap, d.s), step(r.ap, all), tau)))

SameW(a, b) == VSame(a.x, b.x) /\ VSame(a.y, b.y) /\ VSame(a.z, b.z) /\ VSame(a.s, b.s)

TimesOk(r) == LET t == r.t IN
  /\ \A i \in 1..4 : DFinite(t[i]) /\ DLe(DZero, t[i])
  /\ DLe(t[4], t[3])                      \* factorisation <= kkt
  /\ DLe(t[3], t[2])                      \* kkt <= solve
  /\ DLe(DAdd(t[1], t[2]), DAdd(r.wall, DParse("1e-5")))

OptimalClauses(r) ==
  LET v == r.w
      cl(name, got, val, abs) ==
        Clause("C12", name, DNear(got, VNorm(val), DMul(Fuzz, DAdd(VNorm(abs), DAbs(got)))))
  IN Clause("C01", "KKT conditions within the tolerances", ConvMay(Q, v, Opt))
     \cup Clause("C01", "s and z strictly positive", Interior(v))
     \cup Clause("C12", "objective", NearBy(r.fval, Cost(Q, v), CostAbs(Q, v)))
     \cup cl("n_rx", r.nrx, Rx(Q, v), RxAbs(Q, v))
     \cup (IF Q.p > 0 THEN cl("n_ry", r.nry, Ry(Q, v), RyAbs(Q, v)) ELSE Clause("C12", "n_ry without equalities", DEq(r.nry, DZero)))
     \cup cl("n_rz", r.nrz, Rz(Q, v), RzAbs(Q, v))
     \cup Clause("C12", "n_mu", NearBy(r.nmu, Mu(Q, v), Mu(Q, v)))
     \cup Clause("C12", "times", TimesOk(r))

\* ----- actions -----------------------------------------------------------
Init == c \in 1..Len(Cases) /\ l = 1 /\ w = <<>> /\ k = 0 /\ sigma = DZero /\ phase = "new" /\ bad = {}

Setup ==
  /\ phase = "new"
  /\ LET r == R(1) IN
     /\ w' = r.w /\ sigma' = r.sg /\ phase' = "run"
     /\ bad' = bad \cup SetupClauses(r.w)
  /\ l' = 2 /\ k' = 0 /\ UNCHANGED c

\* which action explains observation r under limit lim
IsOptimal(r) == r.code = 0
Observe ==
  /\ phase \in {"run", "done"} /\ l <= Len(Runs)
  /\ LET r == R(l) lim == r.limit IN
     IF phase = "run" /\ ~IsOptimal(r)
     THEN \* the limit was hit: exactly one step beyond the previous limit
          /\ bad' = bad
               \cup Clause("C04", "code Maximum-Iterations", r.code = 2 /\ r.flag = 2)
               \cup Clause("C04", "limit iterations performed", r.iter = lim)
               \cup Clause("C04", "did not stop at a converged iterate", lim > k => ~ConvMust(Q, w, Opt))
               \cup (IF lim = k THEN Clause("C04", "limit 0 leaves the initial point", SameW(r.w, w))
                     ELSE IF lim = k + 1 /\ VFinite(r.w.x) /\ VFinite(w.z) THEN StepClauses(w, r) ELSE {})    \* after a gap the last step cannot be judged
          /\ w' = r.w /\ k' = lim /\ sigma' = r.sg /\ phase' = "run"
     ELSE \* converged at iterate k < lim
          /\ bad' = bad
               \cup Clause("C04", "code Optimal", r.code = 0 /\ r.flag = 0)
               \cup Clause("C04", "iteration count", r.iter = k)
               \cup Clause("C04", "Optimal is only found below the limit", k < lim)
               \cup Clause("C04", "stops at the first converged iterate", ConvMay(Q, w, Opt))
               \cup Clause("C04", "a larger limit gives the same iterate", SameW(r.w, w))
               \cup Clause("C12", "step lengths of the last step", k = 0 \/ (r.ap = R(k+2).ap /\ r.ad = R(k+2).ad))
               \cup Clause("C12", "iteration count", r.iter = k)
               \cup OptimalClauses(r)
          /\ phase' = "done" /\ UNCHANGED <<w, k, sigma>>
  /\ l' = l + 1 /\ UNCHANGED c

Next == Setup \/ Observe
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
NoBad == bad = {}
\* every recorded run is consumed (checked through the number of states)
=============================================================================
