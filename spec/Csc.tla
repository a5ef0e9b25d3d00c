-------------------------------- MODULE Csc ---------------------------------
(* Compressed-column matrices as the implementation stores them: a record
   m, n, jc (n+1 column starts), ir (0-based rows), pr (values), and cap, the
   number of entries the arrays have room for.                              *)
EXTENDS LinAlg, Naturals, TLC

ColOf(M, j) == M.jc[j]+1 .. M.jc[j+1]                \* positions of column j
Starts(M) == /\ Len(M.jc) = M.n + 1 /\ M.jc[1] = 0
             /\ \A j \in 1..M.n : M.jc[j] <= M.jc[j+1]
WellFormed(M) ==
  /\ Starts(M)
  /\ M.jc[M.n+1] <= M.cap
  /\ Len(M.ir) = M.jc[M.n+1] /\ Len(M.pr) = M.jc[M.n+1]
  /\ \A k \in 1..Len(M.ir) : M.ir[k] >= 0 /\ M.ir[k] < M.m
  /\ \A j \in 1..M.n : Cardinality({M.ir[k] : k \in ColOf(M, j)}) = M.jc[j+1] - M.jc[j]
Sorted(M) == \A j \in 1..M.n : \A a, b \in ColOf(M, j) : a < b => M.ir[a] < M.ir[b]
Column(M, j) == {<<M.ir[k]+1, j, M.pr[k]>> : k \in ColOf(M, j)}
\* the column of each position, and the set of entries, of well-formed M
Owner(M) == LET f[j \in 0..M.n] == IF j = 0 THEN <<>> ELSE f[j-1] \o [q \in 1..M.jc[j+1]-M.jc[j] |-> j]
            IN f[M.n]
Entries(M) == LET o == TLCEval(Owner(M)) IN {<<M.ir[k]+1, o[k], M.pr[k]>> : k \in 1..M.jc[M.n+1]}
\* the mathematical matrix: its nonzero entries
Value(M) == {e \in Entries(M) : ~DEq(e[3], DZero)}
ValueT(M) == {<<e[2], e[1], e[3]>> : e \in Value(M)}
Pattern(M) == {<<e[1], e[2]>> : e \in Entries(M)}
Triples(T) == {t \in {T[i] : i \in 1..Len(T)} : ~DEq(t[3], DZero)}
\* column-ordered triples of M (for the operators of LinAlg)
AsTriples(M) == LET o == TLCEval(Owner(M)) IN [k \in 1..Len(M.ir) |-> <<M.ir[k]+1, o[k], M.pr[k]>>]
=============================================================================
