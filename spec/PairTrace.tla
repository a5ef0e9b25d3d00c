----------------------------- MODULE PairTrace -----------------------------
(* The product of two solver runs that must agree: the same problem under
   another elimination ordering, relabelling, input format, or spelling of
   "no equality constraints".

   a and b are run records as in QPTrace.  map.x, map.y, map.z give, for each
   variable / equality / inequality of a, its name in b.  The two machines
   step together.  As long as every decision so far was decisive - no rule of
   the algorithm (pivot replacement, sign of the centering parameter, choice of
   the blocking constraint, convergence test) hinged on rounding - corresponding
   iterates and exit codes must agree.  Afterwards only the outcome must.
   light: a large problem without vanishing pivots; the matrices and the outcome only.
   mode = "bit": the runs must be identical bit for bit.                    *)
EXTENDS QP, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
WANT  == IOEnv.WANT

VARIABLES c, l, decisive, stop, bad
vars == <<c, l, decisive, stop, bad>>
Case == Cases[c]
Q    == Case.prob
Opt  == Case.opt
Clause(name, val) == IF val THEN {} ELSE {<<WANT, name>>}

\* b's vector seen with a's names
Back(v, map) == [i \in 1..Len(map) |-> v[map[i]]]
Seen(w) == [x |-> Back(w.x, Case.map.x), y |-> Back(w.y, Case.map.y),
            z |-> Back(w.z, Case.map.z), s |-> Back(w.s, Case.map.z)]
\* b's elimination order in a's names
PermB == LET N  == NK(Q)
             F  == [i \in 1..N |-> IF i <= Q.n THEN Case.map.x[i]
                                   ELSE IF i <= Q.n + Q.p THEN Q.n + Case.map.y[i - Q.n]
                                   ELSE Q.n + Q.p + Case.map.z[i - Q.n - Q.p]]
             Fi == [j \in 1..N |-> CHOOSE i \in 1..N : F[i] = j]
         IN [k \in 1..N |-> Fi[Case.b.perm[k]]]

\* Both orderings factorise K(w) without small pivots, and the systems they
\* end up solving - replaced pivots perturb them differently - agree for rhs.
Tame(w, rhs) ==
  LET K  == KktDense(Q, VQuo(w.s, w.z))
      ra == RegElim(K, Case.a.perm)
      pb == PermB
      rb == IF pb = Case.a.perm THEN ra ELSE RegElim(K, pb)
      t  == DParse("1e6")
      sys(e) == Solve([i \in 1..NK(Q) |-> [K[i] EXCEPT ![i] = DAdd(@, e[i])]], rhs)
      va == sys(ra.e)
      vb == sys(rb.e)
  IN /\ ~ra.amb /\ ~rb.amb /\ DLt(ra.growth, t) /\ DLt(rb.growth, t)
     /\ \/ ra.e = rb.e
        \/ /\ va # <<>> /\ vb # <<>>
           /\ VNear(va, vb, [i \in 1..NK(Q) |-> DMul(DParse("1e-6"), DAdd(DParse("1e-3"), VNormInf(va)))])
AffRhs(w) == Rx(Q, w) \o Ry(Q, w) \o VSub(Rz(Q, w), VQuo(Comp(w), w.z))

\* whether the starting point needs a shift does not hinge on rounding, and
\* both orderings factorise the matrix it solves without small pivots
InitClear(w) ==
  LET t == VSub(Q.h, SpMul(Q.G, w.x, Q.m))
      e == DMul(DParse("1e-9"), DAdd(DOne, VNormInf(RzAbs(Q, w))))
      one == [i \in 1..Q.m |-> DOne]
  IN /\ DLt(e, DAbs(VMin(t))) /\ DLt(e, DAbs(VMax(t)))
     /\ Tame([s |-> one, z |-> one], VNeg(Q.c) \o Q.b \o Q.h)

\* the convergence test is not within 0.1 % of its threshold
Clear(w) ==
  LET T(v, tol) == ~(DLt(DMul(tol, DParse("0.999")), v) /\ DLt(v, DMul(tol, DParse("1.001"))))
  IN T(VNorm(Rx(Q, w)), TolR(Opt)) /\ T(VNorm(Ry(Q, w)), TolR(Opt)) /\ T(VNorm(Rz(Q, w)), TolR(Opt)) /\ T(Mu(Q, w), Opt.abstol)

Agree(u, v, tau) ==
  LET nr(a, b) == VNear(a, b, [i \in 1..Len(a) |-> DMul(tau, DAdd(DOne, VNormInf(a)))])
  IN nr(u.x, v.x) /\ nr(u.y, v.y) /\ nr(u.z, v.z) /\ nr(u.s, v.s)
Identical(u, v) == VSame(u.x, v.x) /\ VSame(u.y, v.y) /\ VSame(u.z, v.z) /\ VSame(u.s, v.s)

\* The eliminations in both orders mean something along the run that converged:
\* the entries that cancel in |L||D||L'| stay below 1e11 times those of the matrix
\* (relative backward error below 1e-5).  Where vanishing pivots are replaced by
\* 1e-7, an unlucky order can exceed this.
Meaningful ==
  LET it == IF Case.b.it[Len(Case.b.it)].code = 0 THEN [k \in 1..Len(Case.b.it) |-> Seen(Case.b.it[k].w)] ELSE [k \in 1..Len(Case.a.it) |-> Case.a.it[k].w]
      pb == PermB
      t == DParse("1e11")
      fine(S) == LET K == KktDense(Q, S) IN DLt(RegElim(K, Case.a.perm).growth, t) /\ (pb = Case.a.perm \/ DLt(RegElim(K, pb).growth, t))
  IN fine([i \in 1..Q.m |-> DOne]) /\ \A k \in 1..Len(it) : fine(VQuo(it[k].s, it[k].z))

IsRun(r) == "code" \in DOMAIN r
RA == Case.a.it[l]
RB == Case.b.it[l]
Shared == IF Len(Case.a.it) < Len(Case.b.it) THEN Len(Case.a.it) ELSE Len(Case.b.it)

\* both objects hold the same matrices (stored zeros aside)
Values(T) == SelectSeq(T, LAMBDA t : ~DEq(t[3], DZero))           \* listed column by column
Held == \A k \in 1..Len(Case.held[1]) : Values(Case.held[1][k]) = Values(Case.held[2][k])

Init == c \in 1..Len(Cases) /\ l = 1 /\ decisive = ~Case.light /\ stop = FALSE /\ bad = {}

Both ==
  /\ ~stop /\ l <= Shared
  /\ IF Case.mode = "bit"
     THEN /\ bad' = bad \cup Clause("identical iterates", Identical(RA.w, RB.w))
                        \cup (IF IsRun(RA) THEN Clause("identical exit code and count", RA.code = RB.code /\ RA.iter = RB.iter) ELSE {})
          /\ UNCHANGED decisive
     ELSE /\ bad' = bad
               \cup (IF l = 1 THEN Clause("same matrices", Held) ELSE {})
               \cup Clause("iterates agree up to rounding", decisive /\ (l = 1 => InitClear(RA.w)) => Agree(RA.w, Seen(RB.w), DParse("1e-4")))
               \cup (IF IsRun(RA) THEN Clause("same exit code and iteration count",
                                              decisive => (RA.code = RB.code /\ RA.iter = RB.iter)) ELSE {})
          /\ decisive' = (/\ decisive
                          /\ l = 1 => InitClear(RA.w)
                          /\ VFinite(RA.w.x) /\ VFinite(RA.w.z)
                          /\ Agree(RA.w, Seen(RB.w), DParse("1e-7"))
                          /\ DLt(DAdd(Opt.sigmad, DParse("1e-25")), RA.sg)
                          /\ Tame(RA.w, AffRhs(RA.w)) /\ Clear(RA.w))
  /\ l' = l + 1 /\ UNCHANGED <<c, stop>>

\* the run with the default limit (last record of each): the outcome
Outcome ==
  /\ ~stop /\ l = Shared + 1
  /\ LET ra == Case.a.it[Len(Case.a.it)]
         rb == Case.b.it[Len(Case.b.it)]
         same == ~Case.rough \/ decisive                \* badly scaled data: only as long as rounding decides nothing
     IN bad' = bad \cup Clause("same outcome", same => (ra.code = rb.code \/ (~Case.light /\ ~Meaningful)))
             \cup Clause("same optimum", same /\ ra.code = 0 /\ rb.code = 0 =>
                    DNear(ra.fval, rb.fval, DMul(DMul(DInt(20), DMax(Opt.reltol, Opt.abstol)),
                      DAdd(DInt(1 + Q.m), DAdd(DAdd(DAdd(VNorm(ra.w.z), VNorm(rb.w.z)), DAdd(VNorm(ra.w.y), VNorm(rb.w.y))),
                                               DAdd(VNorm(ra.w.x), VNorm(rb.w.x)))))))
             \cup Clause("permutation used as given", Case.given = <<>> \/ (Case.b.perm = Case.given /\ Case.after = Case.given))
  /\ stop' = TRUE /\ UNCHANGED <<c, l, decisive>>

Next == Both \/ Outcome
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
