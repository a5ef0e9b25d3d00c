----------------------------- MODULE FinalTrace -----------------------------
(* Outcomes of complete solves: one state per solved problem.

   cert = <<>> or <<w>> : an exact KKT point of the problem, known from its
   construction and verified here; wellposed: the problem must be solved;
   strong: a lower bound on the smallest eigenvalue of P (0 if none).       *)
EXTENDS QP, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
WANT  == IOEnv.WANT
VARIABLES c, l, bad
vars == <<c, l, bad>>
Clause(prop, name, val) == IF WANT # prop THEN {} ELSE IF val THEN {} ELSE {<<prop, name>>}

\* Bounds on the suboptimality of an iterate that passes the convergence test:
\*   -(y*'ry + z*'rz) <= f* - f,   f - f* <= |rx||x-x*| + y'ry + z'rz + z's
GapTol(q, o, w, k) ==
  LET e == DAdd(o.reltol, DMul(DParse("1e-9"), DOne))
  IN DAdd(DMul(e, DAdd(DAdd(DAdd(VNorm(VSub(w.x, k.x)), VNorm(w.y)), DAdd(VNorm(w.z), VNorm(k.y))), VNorm(k.z))),
          DAdd(DMul(DInt(q.m), o.abstol), DMul(DParse("1e-12"), DAdd(CostAbs(q, w), CostAbs(q, k)))))

Clauses(k) ==
  LET q == k.prob o == k.opt r == k.r v == r.w
  IN (IF r.code # 0 THEN Clause("C01", "a code other than Optimal is Maximum-Iterations", r.code = 2)
      ELSE Clause("C01", "KKT conditions within the tolerances", ConvMay(q, v, o))
        \cup Clause("C01", "s and z strictly positive", Interior(v))
        \cup Clause("C12", "objective", NearBy(r.fval, Cost(q, v), CostAbs(q, v)))
        \cup Clause("C12", "residual norms", /\ DNear(r.nrx, VNorm(Rx(q, v)), DMul(Fuzz, DAdd(VNorm(RxAbs(q, v)), r.nrx)))
                                             /\ DNear(r.nrz, VNorm(Rz(q, v)), DMul(Fuzz, DAdd(VNorm(RzAbs(q, v)), r.nrz)))
                                             /\ q.p > 0 => DNear(r.nry, VNorm(Ry(q, v)), DMul(Fuzz, DAdd(VNorm(RyAbs(q, v)), r.nry))))
        \cup Clause("C12", "duality measure", NearBy(r.nmu, Mu(q, v), Mu(q, v))))
     \cup (IF ~k.wellposed THEN {} ELSE
           Clause("C02", "solved", r.code = 0 /\ r.iter <= 100)
           \cup (IF k.cert = <<>> THEN {} ELSE
                 LET s == k.cert[1]
                     g == GapTol(q, o, v, s)
                     d == VNorm(VSub(v.x, s.x))
                 IN Clause("C02", "generator: certificate", Certificate(q, s, DParse("1e-10")))
                    \cup Clause("C02", "optimal value", DNear(Cost(q, v), Cost(q, s), g))
                    \cup Clause("C02", "optimal point", DLt(DZero, k.strong) =>
                            DLe(DMul(DMul(DParse("0.25"), k.strong), DMul(d, d)), g))))

Init == c \in 1..Len(Cases) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Clauses(Cases[c]) /\ UNCHANGED c
Next == Judge
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
