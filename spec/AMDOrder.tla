------------------------------ MODULE AMDOrder ------------------------------
(* The ordering interface as a state machine with the outcomes Invalid, OutOfMemory, Ordered
   and Jumbled, judged by definitions: validity by the storage format, statistics by the pattern, fill by
   the elimination game on the permutation returned.  One case is one call,
   made twice (runs[1], runs[2], with different garbage in fresh memory):
     null     which argument is NULL ("Ap", "Ai", "P" or "")
     fail     index of the allocation that fails; -1 none, -2 all
     dense    dense-row parameter times 10, or -10 (none); 100 is the default
     fills    fills of all minimum degree orderings of this graph, if known
   a run: ret, P, info (whole numbers), sym, alloc = calls, frees, blocks
   left, wrong frees, damaged blocks; kept = inputs and surroundings unwritten.
   Indices are 0-based as in the code.                                      *)
EXTENDS IEEE, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, pat, bad
vars == <<c, l, pat, bad>>
Case == Cases[c]
N == Case.n
Clause(name, val) == IF val THEN {} ELSE {<<"C16", name>>}
Ap(j) == Case.Ap[j+1]
Col(j) == Ap(j)+1 .. Ap(j+1)
Ai(k) == Case.Ai[k]

(* ----------------------------------------------- the argument -- *)
Given == Case.null = ""
Starts == /\ Ap(0) = 0 /\ \A j \in 0..N-1 : Ap(j) <= Ap(j+1)
Rows == \A k \in 1..Ap(N) : Ai(k) >= 0 /\ Ai(k) < N
Valid == N >= 0 /\ Given /\ (N > 0 => Starts /\ Rows)
InOrder == \A j \in 0..N-1 : \A k \in Col(j) : k > Ap(j)+1 => Ai(k-1) < Ai(k)

Pairs == UNION {{<<Ai(k), j>> : k \in Col(j)} : j \in 0..N-1}
Off == {e \in Pairs : e[1] # e[2]}
Both == LET S == TLCEval(Off) IN {e \in S : <<e[2], e[1]>> \in S}
Sym == LET S == TLCEval(Off) IN S \cup {<<e[2], e[1]>> : e \in S}

(* ----------------------------------------------- elimination -- *)
RECURSIVE Play(_, _, _, _)
Play(k, P, adj, count) ==
  IF k > N THEN count
  ELSE LET v == P[k]
           S == adj[v]
       IN Play(k + 1, P,
               TLCEval([u \in 0..N-1 |-> IF u = v THEN {} ELSE IF u \in S THEN (adj[u] \cup S) \ {u, v} ELSE adj[u]]),
               Append(count, Cardinality(S)))
Adj == LET S == TLCEval(Sym) IN [u \in 0..N-1 |-> {e[2] : e \in {f \in S : f[1] = u}}]
Columns(P) == Play(1, P, pat.adj, <<>>)
\* exact minimum degree with first ties, as a yardstick for larger patterns
RECURSIVE MinDeg(_, _, _)
MinDeg(left, adj, count) ==
  IF left = {} THEN count
  ELSE LET d == TLCEval([u \in left |-> Cardinality(adj[u])])
           v == CHOOSE v \in left : \A u \in left : d[v] < d[u] \/ (d[v] = d[u] /\ v <= u)
           S == adj[v]
       IN MinDeg(left \ {v}, TLCEval([u \in 0..N-1 |-> IF u = v THEN {} ELSE IF u \in S THEN (adj[u] \cup S) \ {u, v} ELSE adj[u]]), count + Cardinality(S))
MDTOP == 320                                  \* beyond, only forests and the bounds judge the fill
RECURSIVE AddUp(_, _)
AddUp(s, k) == IF k = 0 THEN 0 ELSE s[k] + AddUp(s, k - 1)
Add(s) == AddUp(TLCEval(s), Len(s))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* rows with more than max(16, dense * sqrt n) off-diagonal entries are put last
Dense == {u \in 0..N-1 : LET d == Cardinality(pat.adj[u]) IN
            /\ d > 16
            /\ IF Case.dense < 0 THEN d > N - 2 ELSE 100 * d * d > Case.dense * Case.dense * N}

(* ----------------------------------------------- outcomes -- *)
IsPerm(P) == Len(P) = N /\ {P[k] : k \in 1..N} = 0..N-1
Clean(r) == /\ r.alloc[3] = 0 /\ r.alloc[4] = 0 /\ r.alloc[5] = 0
Invalid(r) == Clause("invalid input: status", r.ret = -2 /\ (Case.info => r.info.status = -2)) \cup Clause("invalid input: nothing leaked", Clean(r))
Failed(r) == Clause("allocation failure: status", r.ret = -1 /\ (Case.info => r.info.status = -1)) \cup Clause("allocation failure: nothing leaked", Clean(r))
Empty(r) == Clause("n = 0: OK", r.ret = 0 /\ Clean(r))
Stats(r) ==
  LET i == r.info
      off == Cardinality(Off)
      cols == TLCEval(Columns(r.P))
      lnz == TLCEval(Add(cols))
      D == TLCEval(Dense)
      nd == Cardinality(D)
      sq == TLCEval(Add([k \in 1..N |-> cols[k] * cols[k]]))
  IN Clause("info: n", i.n = N /\ i.status = r.ret)
     \cup Clause("info: nz", i.nz \in {Cardinality(Pairs), Ap(N)})
     \cup Clause("info: nzdiag", i.nzdiag = Cardinality(Pairs) - off)
     \cup Clause("info: nz of A+A'", i.nzaat = Cardinality(Sym))
     \cup Clause("info: symmetry", r.sym = IF off = 0 THEN DOne ELSE DDiv(DInt(Cardinality(Both)), DInt(off)))
     \cup Clause("info: dense rows", i.ndense = nd)
     \cup Clause("info: fill is an upper bound", lnz <= i.lnz /\ lnz <= i.ndiv /\ sq <= i.lu /\ (sq + lnz) \div 2 <= i.ldl)
     \cup Clause("info: largest front", \A k \in 1..N : cols[k] + 1 <= i.dmax)
     \cup Clause("info: bounds are possible", i.lnz <= (N * (N - 1)) \div 2 /\ i.dmax <= N)
     \cup Clause("fill: no worse than minimum degree on small graphs", Case.fills # <<>> => lnz <= MaxOf({Case.fills[k] : k \in 1..Len(Case.fills)}))
     \cup Clause("fill: comparable to minimum degree", nd = 0 /\ Case.fills = <<>> /\ N <= MDTOP => 2 * lnz <= 3 * pat.md + 2 * N)
     \cup Clause("dense rows come last", {r.P[k] : k \in N-nd+1 .. N} = D)
Ordered(r) ==
  Clause("status OK, jumbled exactly when unsorted or duplicates", r.ret = IF InOrder THEN 0 ELSE 1)
  \cup Clause("a permutation", IsPerm(r.P))
  \cup Clause("nothing leaked", Clean(r))
  \cup (IF IsPerm(r.P) /\ Case.info THEN Stats(r) ELSE {})
Outcome(r) == Clause("arguments unwritten", r.kept)
  \cup (IF ~Valid THEN Invalid(r)
        ELSE IF N = 0 THEN Empty(r)
        ELSE IF Case.fail = -2 \/ (Case.fail >= 0 /\ Case.fail < r.alloc[1]) THEN Failed(r)
        ELSE Ordered(r))

Init == c \in 1..Len(Cases) /\ l = 0 /\ pat = [adj |-> <<>>, md |-> 0] /\ bad = {}
Read == /\ l = 0 /\ l' = 1 /\ UNCHANGED <<c, bad>>
        /\ pat' = IF Valid /\ N > 0 THEN [adj |-> TLCEval(Adj), md |-> IF Case.fills = <<>> /\ Case.info /\ N <= MDTOP THEN MinDeg(0..N-1, TLCEval(Adj), 0) ELSE 0] ELSE pat
Call == /\ l \in {1, 2} /\ l' = l + 1 /\ UNCHANGED <<c, pat>> /\ bad' = Outcome(Case.runs[l])
Same == /\ l = 3 /\ l' = 4 /\ UNCHANGED <<c, pat>>
        /\ bad' = Clause("deterministic", \A k \in {"ret", "info", "sym"} \cup (IF Case.runs[1].ret >= 0 /\ N > 0 THEN {"P"} ELSE {}) : Case.runs[1][k] = Case.runs[2][k])
Next == Read \/ Call \/ Same
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
