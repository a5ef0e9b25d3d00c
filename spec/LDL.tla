-------------------------------- MODULE LDL ---------------------------------
(* The factorisation object as a state machine:
     Symbolic -> Numeric -> (Solve | Refactor)*
   judged by the definitions (the elimination game for the structure, the
   product L D L' for the values).  A case is the history of one matrix; ops is
   the list of calls with what they returned.  Node and row numbers are
   0-based in the record, as in the code.                                   *)
EXTENDS Csc, SequencesExt, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, fill, ready, bad
vars == <<c, l, fill, ready, bad>>
Fuzz == DParse("1e-13")
Case == Cases[c]
N == Case.n
Clause(name, val) == IF val THEN {} ELSE {<<"C17", name>>}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

Perm == IF Case.P = <<>> THEN [i \in 1..N |-> i - 1] ELSE Case.P
Inv(p) == [j \in 0..N-1 |-> (CHOOSE k \in 1..N : p[k] = j) - 1]
\* pattern of P M P' below the diagonal, as sets of later neighbours (1-based)
Low(M) == LET iv == TLCEval(Inv(Perm)) IN {<<iv[e[1]-1] + 1, iv[e[2]-1] + 1>> : e \in Entries(M)}
RECURSIVE Play(_, _, _)
Play(k, adj, struct) ==                       \* the elimination game
  IF k > N THEN struct
  ELSE LET S == {j \in adj[k] : j > k}
       IN Play(k + 1, TLCEval([i \in 1..N |-> IF i \in S THEN (adj[i] \cup S) \ {i} ELSE adj[i]]), Append(struct, S))
Game(pat) == Play(1, TLCEval([i \in 1..N |-> {j \in 1..N : j # i /\ (<<i, j>> \in pat \/ <<j, i>> \in pat)}]), <<>>)
ParentOf(g) == [k \in 1..N |-> IF g[k] = {} THEN -1 ELSE Least(g[k]) - 1]
Count(g) == [k \in 1..N |-> Cardinality(g[k])]
RECURSIVE Up(_, _)
Up(i, par) == IF i = -1 THEN {} ELSE {i} \cup Up(par[i+1], par)

Symbolic(o) ==
  LET g == fill
  IN Clause("symbolic: elimination tree", o.Parent = ParentOf(g))
     \cup Clause("symbolic: column counts", o.Lnz = Count(g))
     \cup Clause("symbolic: column starts", Len(o.Lp) = N + 1 /\ o.Lp[1] = 0 /\ \A k \in 1..N : o.Lp[k+1] = o.Lp[k] + Cardinality(g[k]))
     \cup Clause("symbolic: inverse permutation", Case.P # <<>> => \A k \in 1..N : o.Pinv[Case.P[k]+1] = k - 1)
     \cup Clause("symbolic: writes only its outputs", o.kept)

\* dense rows of the unit lower triangular factor
LTriples(o) == LET pos == {<<j, q>> : <<j, q>> \in UNION {{<<j, q>> : q \in o.Lp[j]+1 .. o.Lp[j+1]} : j \in 1..N}}
               IN {<<o.Li[t[2]] + 1, t[1], o.Lx[t[2]]>> : t \in pos}
RowsOf(o) == TLCEval(Dense(SetToSeq(LTriples(o)) \o [i \in 1..N |-> <<i, i, DOne>>], N, N))
PatternOk(o) == /\ Len(o.Li) = o.Lp[N+1] /\ Len(o.Lx) = o.Lp[N+1]
                /\ \A j \in 1..N : [i \in 1..(o.Lp[j+1] - o.Lp[j]) |-> o.Li[o.Lp[j] + i] + 1]
                                   = SetToSortSeq(fill[j], LAMBDA a, b : a < b)
Eps == DParse("1e-14")
Delta == DParse("1e-7")
\* L D L' = P M P', pivots of magnitude at most Eps replaced by +-Delta
Factors(o, M) ==
  LET R == RowsOf(o)
      S == TLCEval([i \in 1..N |-> VHad(R[i], o.D)])
      D0 == TLCEval(Dense(AsTriples(M), N, N))                   \* entries given several times add up
      m(i, j) == D0[Perm[i]+1][Perm[j]+1]
      sum(i, j) == VDot(S[i], R[j])
      abs(i, j) == DAdd(VDot(VAbs(S[i]), VAbs(R[j])), DAbs(m(i, j)))
      off == \A i \in 1..N : \A j \in 1..i-1 : DNear(sum(i, j), m(i, j), DMul(Fuzz, abs(i, j)))
      piv(k) == LET d == DSub(m(k, k), DSub(sum(k, k), o.D[k]))      \* pivot before replacement
                    t == DMul(Fuzz, DAdd(abs(k, k), DAbs(d)))
                    as(x) == DNear(o.D[k], x, DMul(DInt(4), t))
                    canKeep == DLt(Eps, DAdd(DAbs(d), t))
                    canRepl == DLe(DSub(DAbs(d), t), Eps)
                    canNeg == DLe(DSub(d, t), DZero)
                    canPos == DLt(DZero, DAdd(d, t))
                IN \/ canKeep /\ as(d)
                   \/ canRepl /\ canNeg /\ DEq(o.D[k], DNeg(Delta))
                   \/ canRepl /\ canPos /\ DEq(o.D[k], Delta)
  IN off /\ \A k \in 1..N : piv(k)
Numeric(o, what) ==
  LET pat == PatternOk(o)
  IN Clause(what \o ": sorted rows, predicted pattern", pat)
     \cup Clause(what \o ": no zero pivot", \A k \in 1..N : ~DEq(o.D[k], DZero) /\ DFinite(o.D[k]))
     \cup Clause(what \o ": L D L' = P M P'", pat => Factors(o, o.M))
     \cup Clause(what \o ": reports success", o.ret = N)
     \cup Clause(what \o ": writes only its outputs", o.kept)
Row(o) == Clause("rows of L", /\ Len(o.Ltp) = N + 1 /\ o.Ltp[1] = 0
                              /\ \A i \in 1..N : [k \in 1..(o.Ltp[i+1] - o.Ltp[i]) |-> o.Lti[o.Ltp[i] + k] + 1]
                                                 = SetToSortSeq({j \in 1..N : i \in fill[j]}, LAMBDA a, b : a < b))
\* nodes whose factor rows can change when the diagonal at the nodes n+p.. does
Reach(o) == LET par == ParentOf(fill)
                iv == Inv(Perm)
                U == UNION {Up(iv[j], par) : j \in o.from .. N-1} \cup {N - 1}
            IN Clause("reach: exactly the paths to the roots", \A i \in 0..N-1 : (o.U[i+1] = N) <=> (i \in U))
               \cup Clause("reach: writes only its output", o.kept)
Near(a, b, s) == Len(a) = Len(b) /\ VNear(a, b, VScale(Fuzz, s))
Mulr(R, x) == [i \in 1..N |-> VDot(R[i], x)]
MulA(R, x) == [i \in 1..N |-> VDot(VAbs(R[i]), VAbs(x))]
Trans(R) == [i \in 1..N |-> [j \in 1..N |-> R[j][i]]]
Solve1(o) ==
  LET R == IF o.what = "lsolve" THEN RowsOf(o) ELSE IF o.what = "ltsolve" THEN Trans(RowsOf(o)) ELSE <<>>
  IN Clause(o.what,
       CASE o.what = "lsolve" -> Near(Mulr(R, o.x), o.b, VAdd(MulA(R, o.x), VAbs(o.b)))
         [] o.what = "ltsolve" -> Near(Mulr(R, o.x), o.b, VAdd(MulA(R, o.x), VAbs(o.b)))
         [] o.what = "dsolve" -> Near(o.x, VQuo(o.b, o.D), VAbs(VQuo(o.b, o.D)))
         [] o.what = "perm"  -> \A i \in 1..N : o.x[i] = o.b[Perm[i]+1]
         [] o.what = "permt" -> \A i \in 1..N : o.x[Perm[i]+1] = o.b[i])
     \cup Clause(o.what \o ": writes only its output", o.kept)
ValidPerm(o) == Clause("valid_perm", (o.ret # 0) <=>
   /\ o.nn >= 0 /\ o.flag
   /\ o.null \/ \A i \in 1..o.nn : o.p[i] >= 0 /\ o.p[i] < o.nn /\ \A j \in 1..i-1 : o.p[i] # o.p[j])
ValidMatrix(o) == Clause("valid_matrix", (o.ret # 0) <=>
   /\ o.nn >= 0 /\ ~o.nullp /\ ~o.nulli
   /\ o.Ap[1] = 0 /\ \A j \in 1..o.nn : o.Ap[j] <= o.Ap[j+1]
   /\ \A q \in 1..o.Ap[o.nn+1] : o.Ai[q] >= 0 /\ o.Ai[q] < o.nn)

Init == c \in 1..Len(Cases) /\ l = 0 /\ fill = <<>> /\ ready = (Cases[c].n = 0) /\ bad = {}
Analyse == /\ ~ready /\ ready' = TRUE /\ fill' = Game(Low(Case.M)) /\ UNCHANGED <<c, l, bad>>
Call == /\ l < Len(Case.ops) /\ ready /\ l' = l + 1 /\ UNCHANGED <<c, fill, ready>>
        /\ LET o == Case.ops[l+1] IN
           bad' = CASE o.op = "symbolic" -> Symbolic(o)
                    [] o.op = "numeric" -> Numeric(o, o.name)
                    [] o.op = "rows" -> Row(o)
                    [] o.op = "reach" -> Reach(o)
                    [] o.op = "solve" -> Solve1(o)
                    [] o.op = "perm" -> ValidPerm(o)
                    [] o.op = "matrix" -> ValidMatrix(o)
Next == Analyse \/ Call
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
