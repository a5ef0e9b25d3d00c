------------------------------ MODULE LDLModel ------------------------------
(* Symbolic factorisation, two ways, over every graph on N labelled nodes:

   - the elimination game: remove node k and connect its later neighbours;
     Struct[k] is the set of later neighbours at that moment, i.e. the rows of
     column k of L;  Parent[k] its smallest element;
   - the up-looking algorithm of LDL_symbolic: for each row k follow the path
     from each entry towards the root of the tree built so far.

   Both run in lock step, one node at a time; in the end they agree.  The
   graphs are emitted and the real code is replayed on them.                *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json, IOUtils
Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
N == Num(IOEnv.NN)
Nodes == 1..N
VARIABLES E, k, adj, struct, parent, lnz, rows
vars == <<E, k, adj, struct, parent, lnz, rows>>
Und == {e \in Nodes \X Nodes : e[1] < e[2]}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Init == /\ E \in SUBSET Und /\ k = 1
        /\ adj = [i \in Nodes |-> {j \in Nodes : <<i, j>> \in E \/ <<j, i>> \in E}]
        /\ struct = [i \in Nodes |-> {}]
        /\ parent = [i \in Nodes |-> 0] /\ lnz = [i \in Nodes |-> 0] /\ rows = [i \in Nodes |-> {}]
\* nodes on the path from i upwards in tree p until k or a node of seen
RECURSIVE Path(_, _, _, _)
Path(i, p, kk, seen) == IF i = kk \/ i = 0 \/ i \in seen THEN {} ELSE {i} \cup Path(p[i], p, kk, seen)
RECURSIVE Walk(_, _, _, _)
Walk(todo, p, kk, seen) ==              \* LDL_symbolic's inner loop: all marked nodes
  IF todo = {} THEN [seen |-> seen, p |-> p]
  ELSE LET i == Min(todo)
           new == Path(i, p, kk, seen)
           p2 == [v \in Nodes |-> IF v \in new /\ p[v] = 0 THEN kk ELSE p[v]]
       IN Walk(todo \ {i}, p2, kk, seen \cup new)
Step ==
  /\ k <= N
  /\ LET S == {j \in adj[k] : j > k}
         w == Walk({i \in Nodes : i < k /\ <<i, k>> \in E}, parent, k, {})
     IN /\ struct' = [struct EXCEPT ![k] = S]
        /\ adj' = [i \in Nodes |-> IF i \in S THEN (adj[i] \cup S) \ {i} ELSE adj[i]]
        /\ parent' = w.p
        /\ rows' = [rows EXCEPT ![k] = w.seen]
        /\ lnz' = [i \in Nodes |-> IF i \in w.seen THEN lnz[i] + 1 ELSE lnz[i]]
  /\ k' = k + 1 /\ UNCHANGED E
Next == Step
Spec == Init /\ [][Next]_vars
Done == k = N + 1
TreeAgrees == Done => \A i \in Nodes : parent[i] = (IF struct[i] = {} THEN 0 ELSE Min(struct[i]))
CountsAgree == Done => \A i \in Nodes : lnz[i] = Cardinality(struct[i])
RowsAgree == Done => \A i, j \in Nodes : (i \in rows[j]) <=> (j \in struct[i])
\* what makes the partial refactorisation right: the rows of L depending on
\* column i are on the path from i to its root
Reach(i) == Path(i, parent, 0, {})
PathClosed == Done => \A i \in Nodes : struct[i] \subseteq Reach(i)
Emit == Done => PrintT("CASE " \o ToJson([E |-> E]))
=============================================================================
