---------------------------- MODULE KKTPatterns -----------------------------
(* Every sparsity pattern of a small problem, with the column-wise assembly of
   the KKT matrix as an algorithm (a transcription of the concatenation the
   implementation performs), checked against the block definition.  The
   patterns are emitted for replay into the real assembly.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
N == Num(IOEnv.NN)  M == Num(IOEnv.MM)  EQ == Num(IOEnv.PP)
VARIABLES P, A, G, cols, done      \* patterns: sets of <<i,j>>; cols: the columns assembled so far
vars == <<P, A, G, cols, done>>
Cells(a, b) == (1..a) \X (1..b)
Sym(S) == S \cup {<<e[2], e[1]>> : e \in S}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Asc(S \ {x})
ColRows(S, j) == Asc({e[1] : e \in {e \in S : e[2] = j}})
RowCols(S, i) == Asc({e[2] : e \in {e \in S : e[1] = i}})
Shift(s, k) == [i \in 1..Len(s) |-> s[i] + k]
Init == /\ P \in {Sym(S) : S \in SUBSET {e \in Cells(N, N) : e[1] <= e[2]}}
        /\ A \in SUBSET Cells(EQ, N) /\ G \in SUBSET Cells(M, N)
        /\ cols = <<>> /\ done = FALSE
Column(j) ==
  IF j <= N THEN ColRows(P, j) \o Shift(ColRows(A, j), N) \o Shift(ColRows(G, j), N + EQ)
  ELSE IF j <= N + EQ THEN RowCols(A, j - N)
  ELSE RowCols(G, j - N - EQ) \o <<j>>
Append1 == ~done /\ Len(cols) < N + EQ + M /\ cols' = Append(cols, Column(Len(cols) + 1)) /\ UNCHANGED <<P, A, G, done>>
Finish  == ~done /\ Len(cols) = N + EQ + M /\ done' = TRUE /\ UNCHANGED <<P, A, G, cols>>
Next == Append1 \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- block definition
Block == P \cup {<<e[1] + N, e[2]>> : e \in A} \cup {<<e[2], e[1] + N>> : e \in A}
           \cup {<<e[1] + N + EQ, e[2]>> : e \in G} \cup {<<e[2], e[1] + N + EQ>> : e \in G}
           \cup {<<i, i>> : i \in N+EQ+1 .. N+EQ+M}
Got == UNION {{<<cols[j][k], j>> : k \in 1..Len(cols[j])} : j \in 1..Len(cols)}
Nnz == LET f[j \in 0..Len(cols)] == IF j = 0 THEN 0 ELSE f[j-1] + Len(cols[j]) IN f[Len(cols)]
IsBlock == done => Got = Block
Symmetric == done => \A e \in Got : <<e[2], e[1]>> \in Got
Size == done => Nnz = Cardinality(P) + 2 * Cardinality(A) + 2 * Cardinality(G) + M
NoDup == \A j \in 1..Len(cols) : \A a, b \in 1..Len(cols[j]) : a < b => cols[j][a] < cols[j][b]
DiagLast == \A j \in 1..Len(cols) : j > N + EQ => cols[j][Len(cols[j])] = j
Emit == done => PrintT("CASE " \o ToJson([P |-> P, A |-> A, G |-> G]))
=============================================================================
