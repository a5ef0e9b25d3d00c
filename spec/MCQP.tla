-------------------------------- MODULE MCQP --------------------------------
(* The solver as a state machine over doubles, executed by TLC on a list of
   problems (CASES: one JSON problem per line).  Checks the design-level
   properties of the iteration itself on every reachable state.  noisy: rounding
   may have decided a pivot replacement, or the iterate has become so large
   (problems without solution) that accuracy is lost.                       *)
EXTENDS QP, TLC, TLCExt, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, w, k, sigma, status, ap, ad, noisy
vars == <<c, w, k, sigma, status, ap, ad, noisy>>
Q == Cases[c].prob
Opt == Cases[c].opt
Perm == [i \in 1..NK(Q) |-> i]
MaxIt == 60
Init == /\ c \in 1..Len(Cases) /\ k = 0 /\ status = "run" /\ sigma = DInt(100)
        /\ ap = DOne /\ ad = DOne
        /\ LET i == InitPoint(Cases[c].prob, [j \in 1..NK(Cases[c].prob) |-> j])
           IN w = i.w /\ noisy = ~i.ok
Converge == status = "run" /\ ConvMust(Q, w, Opt) /\ status' = "optimal" /\ UNCHANGED <<c, w, k, sigma, ap, ad, noisy>>
Limit == status = "run" /\ k = MaxIt /\ status' = "limit" /\ UNCHANGED <<c, w, k, sigma, ap, ad, noisy>>
Step == /\ status = "run" /\ ~ConvMust(Q, w, Opt) /\ k < MaxIt
        /\ LET i == Iterate(Q, w, Perm, sigma, Opt.sigmad)
               a == StepLen(w.s, i.d.s)
               b == StepLen(w.z, i.d.z)
           IN /\ w' = Advance(w, i.d, a, b) /\ ap' = a /\ ad' = b /\ sigma' = i.sigma
              /\ noisy' = (noisy \/ ~i.d.ok \/ DLt(DParse("1e5"), DAdd(VNormInf(w.z), VNormInf(w.x))))
        /\ k' = k + 1 /\ UNCHANGED <<c, status>>
Next == Step \/ Converge \/ Limit
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
InteriorInv == Interior(w)
StepInv == DLt(DZero, ap) /\ DLe(ap, DOne) /\ DLt(DZero, ad) /\ DLe(ad, DOne)
OptimalInv == status = "optimal" => ConvMay(Q, w, Opt)
\* a solvable problem whose directions are computable does converge
SolvedInv == status = "limit" => (noisy \/ ~Cases[c].solvable)
\* the exact step shrinks the primal residuals by 1 - ap
ShrinkProp == [][k' = k + 1 /\ ~noisy' =>
  LET t == DParse("1e-6")
      f == DSub(DOne, ap')
  IN /\ VNear(Ry(Q, w'), VScale(f, Ry(Q, w)), VScale(t, VAdd(RyAbs(Q, w), RyAbs(Q, w'))))
     /\ VNear(Rz(Q, w'), VScale(f, Rz(Q, w)), VScale(t, VAdd(RzAbs(Q, w), RzAbs(Q, w'))))]_vars
=============================================================================
