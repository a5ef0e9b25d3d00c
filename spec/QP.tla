--------------------------------- MODULE QP ---------------------------------
(* Quadratic programs   min 1/2 x'Px + c'x   s.t.  Ax = b,  Gx <= h,
   their optimality conditions, and the primal-dual interior-point iteration
   of qpSWIFT as a function from iterates to iterates.

   A problem q is a record  n, m, p : dimensions;  P, A, G : triples
   (LinAlg);  c, b, h : vectors.  An iterate w is a record x, y, z, s.       *)
EXTENDS LinAlg, Naturals

(* ------------------------------------------------ residuals -- *)
\* rx = -(Px + A'y + G'z + c),  ry = b - Ax,  rz = h - Gx - s,  mu = s'z/m
Rx(q, w) == VNeg(VAdd(VAdd(SpMul(q.P, w.x, q.n), q.c),
                      VAdd(SpMulT(q.A, w.y, q.n), SpMulT(q.G, w.z, q.n))))
Ry(q, w) == VSub(q.b, SpMul(q.A, w.x, q.p))
Rz(q, w) == VSub(VSub(q.h, SpMul(q.G, w.x, q.m)), w.s)
Mu(q, w) == DDiv(VDot(w.s, w.z), DInt(q.m))
Cost(q, w) == DAdd(DMul(DParse("0.5"), VDot(w.x, SpMul(q.P, w.x, q.n))), VDot(q.c, w.x))

\* sums of absolute values of the terms: rounding errors of any evaluation
\* order are below a small multiple of the machine epsilon times these
RxAbs(q, w) == VAdd(VAdd(SpMulA(q.P, w.x, q.n), VAbs(q.c)),
                    VAdd(SpMulTA(q.A, w.y, q.n), SpMulTA(q.G, w.z, q.n)))
RyAbs(q, w) == VAdd(VAbs(q.b), SpMulA(q.A, w.x, q.p))
RzAbs(q, w) == VAdd(VAdd(VAbs(q.h), SpMulA(q.G, w.x, q.m)), VAbs(w.s))
CostAbs(q, w) == DAdd(VDot(VAbs(w.x), SpMulA(q.P, w.x, q.n)), VDot(VAbs(q.c), VAbs(w.x)))

Fuzz == DParse("1e-13")                     \* covers > 400 rounding errors
NearBy(a, b, scale) == DNear(a, b, DMul(Fuzz, scale))

(* ------------------------------------------------ convergence, optima -- *)
\* All three residual norms below reltol/sqrt 3 and s'z/m below abstol.  Must
\* and May bracket the test by the rounding error of evaluating it.
TolR(o) == DDiv(o.reltol, DSqrt(DInt(3)))
ConvMust(q, w, o) ==
  LET T(v, a) == DLt(DAdd(VNorm(v), DMul(Fuzz, VNorm(a))), DMul(TolR(o), DParse("0.999999999999")))
  IN /\ T(Rx(q, w), RxAbs(q, w))
     /\ q.p > 0 => T(Ry(q, w), RyAbs(q, w))
     /\ T(Rz(q, w), RzAbs(q, w))
     /\ DLt(DMul(Mu(q, w), DParse("1.000000000001")), o.abstol)
ConvMay(q, w, o) ==
  LET T(v, a) == DLt(DSub(VNorm(v), DMul(Fuzz, VNorm(a))), DMul(TolR(o), DParse("1.000000000001")))
  IN /\ T(Rx(q, w), RxAbs(q, w))
     /\ q.p > 0 => T(Ry(q, w), RyAbs(q, w))
     /\ T(Rz(q, w), RzAbs(q, w))
     /\ DLt(DMul(Mu(q, w), DParse("0.999999999999")), o.abstol)

Interior(w) == VPos(w.s) /\ VPos(w.z)

\* (x, y, z, s) is an exact KKT point up to tol * (sum of absolute terms): by
\* convexity a global optimum, whatever the solver does
Certificate(q, w, tol) ==
  /\ VLe(VAbs(Rx(q, w)), VScale(tol, RxAbs(q, w)))
  /\ VLe(VAbs(Ry(q, w)), VScale(tol, RyAbs(q, w)))
  /\ VLe(VAbs(Rz(q, w)), VScale(tol, RzAbs(q, w)))
  /\ \A i \in 1..q.m : /\ DLe(DZero, w.s[i]) /\ DLe(DZero, w.z[i])
                       /\ DEq(w.s[i], DZero) \/ DEq(w.z[i], DZero)

(* ------------------------------------------------ KKT matrices -- *)
\* K(d) = [P A' G'; A 0 0; G 0 -diag(d)]
KktTriples(q, d) ==
  LET tr(M, r, k) == [i \in 1..Len(M) |-> <<M[i][1] + r, M[i][2] + k, M[i][3]>>]
      tt(M, r, k) == [i \in 1..Len(M) |-> <<M[i][2] + r, M[i][1] + k, M[i][3]>>]
  IN q.P \o tr(q.A, q.n, 0) \o tt(q.A, 0, q.n)
         \o tr(q.G, q.n + q.p, 0) \o tt(q.G, 0, q.n + q.p)
         \o [i \in 1..q.m |-> <<q.n + q.p + i, q.n + q.p + i, DNeg(d[i])>>]
KktDense(q, d) == Dense(KktTriples(q, d), q.n + q.p + q.m, q.n + q.p + q.m)
NK(q) == q.n + q.p + q.m

\* Solution of the (dynamically regularised) system; ok = FALSE when rounding
\* could decide a pivot replacement or the system is singular.
KktSolve(q, d, perm, rhs) ==
  LET K == KktDense(q, d)
      r == RegElim(K, perm)
      R == [i \in 1..NK(q) |-> [K[i] EXCEPT ![i] = DAdd(@, r.e[i])]]
      v == Solve(R, rhs)
  IN IF r.amb \/ v = <<>> THEN [ok |-> FALSE, v |-> VZero(NK(q)), growth |-> DOne]
     ELSE [ok |-> TRUE, v |-> v, growth |-> r.growth]
Part(v, from, len) == [i \in 1..len |-> v[from + i]]

(* ------------------------------------------------ initial point -- *)
\* Solve the problem with the inequalities as equalities Gx + s = h and s's in
\* the cost; then t = h - Gx, and s = t, z = -t are shifted, if they are not
\* already positive, by 1 + their largest violation.
InitPoint(q, perm) ==
  LET k == KktSolve(q, [i \in 1..q.m |-> DOne], perm, VNeg(q.c) \o q.b \o q.h)
      x == Part(k.v, 0, q.n)
      t == VSub(q.h, SpMul(q.G, x, q.m))
      ap == DNeg(VMin(t))
      ad == VMax(t)
  IN [ok |-> k.ok, growth |-> k.growth, ap |-> ap, ad |-> ad, t |-> t,
      w |-> [x |-> x, y |-> Part(k.v, q.n, q.p),
             s |-> IF DLt(ap, DZero) THEN t ELSE [i \in 1..q.m |-> DAdd(t[i], DAdd(DOne, ap))],
             z |-> IF DLt(ad, DZero) THEN VNeg(t) ELSE [i \in 1..q.m |-> DAdd(DNeg(t[i]), DAdd(DOne, ad))]]]

(* ------------------------------------------------ one step -- *)
\* Largest step to the boundary of v + a dv >= 0: the smallest ratio -v/dv over
\* the negative dv (ratios from 1e10 on count as no limit), 1 without a limit.
Ratios(v, dv) == {i \in 1..Len(v) : DLt(dv[i], DZero) /\ DLt(DDiv(DNeg(v[i]), dv[i]), DParse("1e10"))}
Boundary(v, dv) ==
  LET R == Ratios(v, dv)
  IN IF R = {} THEN DOne
     ELSE LET i == CHOOSE i \in R : \A j \in R : DLe(DDiv(DNeg(v[i]), dv[i]), DDiv(DNeg(v[j]), dv[j]))
          IN DDiv(DNeg(v[i]), dv[i])
StepLen(v, dv) == DMin(DMul(DParse("0.99"), Boundary(v, dv)), DOne)

Comp(w) == VNeg(VHad(w.s, w.z))                      \* -s o z

\* Direction for the complementarity target ds: K(s/z) [dx;dy;dz] =
\* [rx; ry; rz - ds/z],  ds_i = (target_i - s_i dz_i) / z_i
Newton(q, w, perm, target) ==
  LET k == KktSolve(q, VQuo(w.s, w.z), perm,
                    Rx(q, w) \o Ry(q, w) \o VSub(Rz(q, w), VQuo(target, w.z)))
      dz == Part(k.v, q.n + q.p, q.m)
  IN [ok |-> k.ok, growth |-> k.growth, x |-> Part(k.v, 0, q.n), y |-> Part(k.v, q.n, q.p), z |-> dz,
      s |-> VQuo(VSub(target, VHad(w.s, dz)), w.z)]

\* rho = (s + ap ds)'(z + ad dz) / s'z for the affine direction
Rho(w, d) ==
  LET ap == Boundary(w.s, d.s)
      ad == Boundary(w.z, d.z)
  IN DDiv(VDot(VAdd(w.s, VScale(ap, d.s)), VAdd(w.z, VScale(ad, d.z))), VDot(w.s, w.z))
SigmaOf(rho, sigmad) ==
  LET r == DMin(DOne, rho) IN DMax(sigmad, DMul(DMul(r, r), r))

\* The complete step from w.  sigma is the centering parameter left by the
\* previous step.  Mehrotra's predictor-corrector while sigma > sigmad, a pure
\* centering step with sigmad otherwise.
Iterate(q, w, perm, sigma, sigmad) ==
  IF DLt(sigmad, sigma)
  THEN LET aff == Newton(q, w, perm, Comp(w))
           sg  == SigmaOf(Rho(w, aff), sigmad)
           tgt == VAdd(VSub(Comp(w), VHad(aff.s, aff.z)),
                       [i \in 1..q.m |-> DMul(sg, Mu(q, w))])
       IN [d |-> Newton(q, w, perm, tgt), sigma |-> sg, aff |-> aff]
  ELSE LET tgt == VAdd(Comp(w), [i \in 1..q.m |-> DMul(sigmad, Mu(q, w))])
       IN [d |-> Newton(q, w, perm, tgt), sigma |-> sigmad, aff |-> [ok |-> TRUE, s |-> w.s, z |-> w.z]]
(* The linear rows of the Newton system, as satisfied by the step actually
   made from u to v: deviation and tolerance of
     P dx + A'dy + G'dz = rx,   A dx = ry,   G dx + ds = rz
   (up to the regularisation e of replaced pivots).  These rows do not depend
   on the complementarity target.  By backward error analysis the deviation
   is within N^2 eps |L||D||L'| |d|, plus the rounding of the updates.       *)
LinRows(q, u, v, ap, ad, el, bigK) ==
  LET N  == NK(q)
      st(a, f, g) == VScale(DDiv(DOne, a), VSub(g, f))
      dx == st(ap, u.x, v.x)
      ds == st(ap, u.s, v.s)
      dy == st(ad, u.y, v.y)
      dz == st(ad, u.z, v.z)
      no(a, f, g) == VScale(DDiv(DOne, a), VAdd(VAbs(f), VAbs(g)))
      nx == no(ap, u.x, v.x)
      ny == no(ad, u.y, v.y)
      nz == no(ad, u.z, v.z)
      T  == DMul(DMul(DParse("1e-15"), DInt(N * N)),
                 DMul(DMul(el.growth, bigK), VNormInf(dx \o dy \o dz)))
      small(nv) == [i \in 1..Len(nv) |-> DAdd(T, DMul(DParse("1e-14"), nv[i]))]
  IN [x |-> [dev |-> VSub(VAdd(VAdd(SpMul(q.P, dx, q.n), SpMulT(q.A, dy, q.n)),
                               VAdd(SpMulT(q.G, dz, q.n), VHad(Part(el.e, 0, q.n), dx))), Rx(q, u)),
             tol |-> small(VAdd(RxAbs(q, u), VAdd(SpMulA(q.P, nx, q.n), VAdd(SpMulTA(q.A, ny, q.n), SpMulTA(q.G, nz, q.n)))))],
      y |-> [dev |-> VSub(VAdd(SpMul(q.A, dx, q.p), VHad(Part(el.e, q.n, q.p), dy)), Ry(q, u)),
             tol |-> small(VAdd(RyAbs(q, u), SpMulA(q.A, nx, q.p)))],
      z |-> [dev |-> VSub(VAdd(VAdd(SpMul(q.G, dx, q.m), ds), VHad(Part(el.e, q.n + q.p, q.m), dz)), Rz(q, u)),
             tol |-> small(VAdd(RzAbs(q, u), VAdd(SpMulA(q.G, nx, q.m), no(ap, u.s, v.s))))]]
Advance(w, d, ap, ad) ==
  [x |-> VAdd(w.x, VScale(ap, d.x)), y |-> VAdd(w.y, VScale(ad, d.y)),
   z |-> VAdd(w.z, VScale(ad, d.z)), s |-> VAdd(w.s, VScale(ap, d.s))]
=============================================================================
