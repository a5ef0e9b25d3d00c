------------------------------- MODULE LinAlg -------------------------------
(* Vectors (sequences of doubles), sparse matrices (sequences of triples
   <<row, column, value>>, 1-based) and dense matrices (sequences of rows).

   All operators except Solve have their defining TLA+ body here.  For speed
   TLC evaluates those listed in vt.Overrides in Java, unless it is started
   with -Dvt.pure=1; tools/selftest.py runs the same models both ways and
   compares the verdicts.                                                   *)
EXTENDS IEEE, FiniteSets

VZero(n) == [i \in 1..n |-> DZero]

VDot(a, b) ==
  LET f[i \in 0..Len(a)] == IF i = 0 THEN DZero ELSE DAdd(f[i-1], DMul(a[i], b[i]))
  IN f[Len(a)]
VAdd(a, b)    == [i \in 1..Len(a) |-> DAdd(a[i], b[i])]
VSub(a, b)    == [i \in 1..Len(a) |-> DSub(a[i], b[i])]
VScale(k, a)  == [i \in 1..Len(a) |-> DMul(k, a[i])]
VHad(a, b)    == [i \in 1..Len(a) |-> DMul(a[i], b[i])]
VQuo(a, b)    == [i \in 1..Len(a) |-> DDiv(a[i], b[i])]
VNeg(a)       == [i \in 1..Len(a) |-> DNeg(a[i])]
VAbs(a)       == [i \in 1..Len(a) |-> DAbs(a[i])]
VNorm(a)      == DSqrt(VDot(a, a))
VMax(a) ==
  LET f[i \in 1..Len(a)] == IF i = 1 THEN a[1] ELSE DMax(f[i-1], a[i]) IN f[Len(a)]
VMin(a) ==
  LET f[i \in 1..Len(a)] == IF i = 1 THEN a[1] ELSE DMin(f[i-1], a[i]) IN f[Len(a)]
VNormInf(a) == IF a = <<>> THEN DZero ELSE VMax(VAbs(a))
VLe(a, b)     == \A i \in 1..Len(a) : DLe(a[i], b[i])      \* componentwise; FALSE on NaN
VPos(a)       == \A i \in 1..Len(a) : DLt(DZero, a[i])
VFinite(a)    == \A i \in 1..Len(a) : DFinite(a[i])
VSame(a, b)   == Len(a) = Len(b) /\ \A i \in 1..Len(a) : DSame(a[i], b[i])
\* |a - b| <= t componentwise
VNear(a, b, t) == VLe(VAbs(VSub(a, b)), t)

\* y = M x for M given by triples, with nr rows
SpMul(M, x, nr) ==
  LET f[k \in 0..Len(M)] ==
        IF k = 0 THEN VZero(nr)
        ELSE [f[k-1] EXCEPT ![M[k][1]] = DAdd(@, DMul(M[k][3], x[M[k][2]]))]
  IN f[Len(M)]
\* y = M' x, with nc columns
SpMulT(M, x, nc) ==
  LET f[k \in 0..Len(M)] ==
        IF k = 0 THEN VZero(nc)
        ELSE [f[k-1] EXCEPT ![M[k][2]] = DAdd(@, DMul(M[k][3], x[M[k][1]]))]
  IN f[Len(M)]
\* |M| |x| and |M'| |x| : the scale against which rounding errors are judged
SpAbs(M) == [k \in 1..Len(M) |-> <<M[k][1], M[k][2], DAbs(M[k][3])>>]
SpMulA(M, x, nr)  == SpMul(SpAbs(M), VAbs(x), nr)
SpMulTA(M, x, nc) == SpMulT(SpAbs(M), VAbs(x), nc)

\* The solution of the square dense system M x = b (Gaussian elimination with
\* partial pivoting and iterative refinement in the override; <<>> if singular).
Solve(M, b) == CHOOSE x \in Seq({}) : Len(x) = Len(M) /\ \A i \in 1..Len(M) : DEq(VDot(M[i], x), b[i])

\* The dense nr x nc matrix of the triples (duplicates are summed)
Dense(M, nr, nc) ==
  LET f[k \in 0..Len(M)] ==
        IF k = 0 THEN [i \in 1..nr |-> VZero(nc)]
        ELSE [f[k-1] EXCEPT ![M[k][1]][M[k][2]] = DAdd(@, M[k][3])]
  IN f[Len(M)]

(* Elimination of the symmetric matrix M in the order perm, with the dynamic
   regularisation of the solver's LDL' factorisation: a pivot d with
   |d| <= 1e-14 is replaced by +1e-7 (d > 0) or -1e-7 (d <= 0).
   Result: e = the diagonal perturbation that has the same effect (so the
   factors are those of M + diag(e)), d = the pivots in elimination order,
   growth = the largest entry met relative to the largest entry of M, amb =
   some pivot is so small compared with the terms it was computed from that
   rounding decides whether it is replaced.                                *)
PivEps   == DParse("1e-14")
PivDelta == DParse("1e-7")
RegElim(M, perm) ==
  LET N == Len(M)
      big(A) == VMax([i \in 1..N |-> VNormInf(A[i])])
      st[k \in 0..N] ==
        IF k = 0 THEN [a |-> [i \in 1..N |-> [j \in 1..N |-> M[perm[i]][perm[j]]]],
                       g |-> [i \in 1..N |-> [j \in 1..N |-> DAbs(M[perm[i]][perm[j]])]],
                       e |-> VZero(N), d |-> <<>>, amb |-> FALSE]
        ELSE LET o == st[k-1]
                 p == o.a[k][k]
                 small == DLe(DAbs(p), PivEps)
                 q == IF small THEN (IF DLe(p, DZero) THEN DNeg(PivDelta) ELSE PivDelta) ELSE p
                 w(i) == DDiv(o.a[i][k], q)
             IN [a |-> [i \in 1..N |-> IF i <= k THEN o.a[i] ELSE
                          [j \in 1..N |-> IF j <= k THEN o.a[i][j] ELSE DSub(o.a[i][j], DMul(w(i), o.a[k][j]))]],
                 g |-> [i \in 1..N |-> IF i <= k THEN o.g[i] ELSE
                          [j \in 1..N |-> IF j <= k THEN o.g[i][j] ELSE DAdd(o.g[i][j], DAbs(DMul(w(i), o.a[k][j])))]],
                 e |-> IF small THEN [o.e EXCEPT ![perm[k]] = DSub(q, p)] ELSE o.e,
                 d |-> Append(o.d, q),
                 amb |-> \/ o.amb
                         \/ /\ ~DEq(p, DZero)
                            /\ DLe(DAbs(p), DMul(DParse("1e-9"), o.g[k][k]))
                         \/ /\ DEq(p, DZero) /\ ~DEq(o.g[k][k], DZero)]
      z == st[N]
  IN [e |-> z.e, d |-> z.d, amb |-> z.amb, growth |-> DDiv(big(z.g), big(M))]
=============================================================================
