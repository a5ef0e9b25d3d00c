-------------------------------- MODULE KKT ---------------------------------
(* The KKT matrix held by a solver object, as a state machine: assembled once
   (diagonal block -I), then only its lower-right diagonal is replaced.

   A case records prob (the caller's problem), mats = <<P, A, G, At, Gt, K>> as
   held after the assembly (A, At = <<>> without equalities), up = <<>> or the
   upper-triangular assembly, and ups, the updates in order with the matrix
   after each:  how "direct" (updatekktmatrix called with indicator ind) or
   "solve" (a run that stopped with s, z the last iterate factorised).       *)
EXTENDS Csc, QP, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, K, bad
vars == <<c, l, K, bad>>
Case == Cases[c]
Q == Case.prob
Clause(name, val) == IF val THEN {} ELSE {<<"C11", name>>}
B == Q.n + Q.p
OffDiag(M) == {e \in Value(M) : ~(e[1] = e[2] /\ e[1] > B)}
DiagOf(M, i) == LET S == {e \in Column(M, B + i) : e[1] = B + i}
                IN IF S = {} THEN DZero ELSE (CHOOSE e \in S : TRUE)[3]
Holds(M, T, nr, nc) == WellFormed(M) /\ M.m = nr /\ M.n = nc /\ Value(M) = Triples(T)
HoldsT(M, T, nr, nc) == WellFormed(M) /\ M.m = nr /\ M.n = nc /\ ValueT(M) = Triples(T)

Init == c \in 1..Len(Cases) /\ l = 0 /\ K = <<>> /\ bad = {}
Assemble ==
  /\ l = 0 /\ l' = 1 /\ UNCHANGED c
  /\ K' = Case.mats.K
  /\ LET m == Case.mats
         N == NK(Q)
     IN bad' = (IF m.P = <<>> THEN {} ELSE
                  Clause("P is the caller's matrix", Holds(m.P, Q.P, Q.n, Q.n))
                  \cup Clause("G is the caller's matrix", Holds(m.G, Q.G, Q.m, Q.n))
                  \cup Clause("G' is its transpose", HoldsT(m.Gt, Q.G, Q.n, Q.m))
                  \cup (IF Q.p = 0 THEN Clause("no equality matrix without equalities", m.A = <<>> /\ m.At = <<>>) ELSE
                        Clause("A is the caller's matrix", Holds(m.A, Q.A, Q.p, Q.n))
                        \cup Clause("A' is its transpose", HoldsT(m.At, Q.A, Q.n, Q.p))))
              \cup Clause("well-formed within its allocation", WellFormed(m.K) /\ m.K.n = N /\ m.K.m = N)
              \cup Clause("K = [P A' G'; A 0 0; G 0 -I]", WellFormed(m.K) =>
                     Value(m.K) = Triples(KktTriples(Q, [i \in 1..Q.m |-> DOne])))
              \cup (IF Case.up = <<>> THEN {} ELSE
                    Clause("upper triangle of K", WellFormed(Case.up) /\
                     Value(Case.up) = {e \in Triples(KktTriples(Q, [i \in 1..Q.m |-> DOne])) : e[1] <= e[2]}))

\* the new diagonal entry and the sum of its absolute terms
NewDiag(u, i) ==
  LET r == DDiv(u.s[i], u.z[i])
      t == DDiv(DSub(u.s[i], DMul(u.ap, u.ds[i])), DSub(u.z[i], DMul(u.ad, u.dz[i])))
  IN IF u.ind = 0 THEN DNeg(r) ELSE IF u.ind = 1 THEN DNeg(DSub(r, DOne)) ELSE DNeg(DSub(r, t))
Terms(u, i) ==
  LET r == DAbs(DDiv(u.s[i], u.z[i]))
      t == DDiv(DAdd(DAbs(u.s[i]), DAbs(DMul(u.ap, u.ds[i]))), DAbs(DSub(u.z[i], DMul(u.ad, u.dz[i]))))
      k == DDiv(DAdd(DAbs(u.z[i]), DAbs(DMul(u.ad, u.dz[i]))), DAbs(DSub(u.z[i], DMul(u.ad, u.dz[i]))))
  IN IF u.ind = 0 THEN r ELSE IF u.ind = 1 THEN DAdd(r, DOne) ELSE DAdd(r, DMul(t, k))
Update ==
  /\ l > 0 /\ l <= Len(Case.ups) /\ l' = l + 1 /\ UNCHANGED c
  /\ LET u == Case.ups[l]
         M == u.K
     IN /\ K' = M
        /\ bad' = Clause("an update keeps the matrix well-formed", WellFormed(M))
             \cup (IF ~WellFormed(M) THEN {} ELSE
                   Clause("an update changes nothing but the lower-right diagonal", OffDiag(M) = OffDiag(K))
                   \cup Clause("the lower-right diagonal takes its documented value",
                        \A i \in 1..Q.m : DNear(DiagOf(M, i), NewDiag(u, i), DMul(DParse("1e-14"), Terms(u, i)))))
Next == Assemble \/ Update
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
