------------------------------ MODULE AMDModel ------------------------------
(* The minimum degree ordering as a nondeterministic algorithm: eliminate any
   node of smallest current degree, connect its neighbours, until none is
   left; fill counts the entries of L below the diagonal.  Every tie is broken
   in every way, over every graph on N nodes.  The possible fills of each graph
   are emitted: the real ordering (which uses an approximation of the degree,
   exact on graphs this small) must stay within the worst of them.          *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json, IOUtils
Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
N == Num(IOEnv.NN)
Nodes == 1..N
VARIABLES E, left, adj, fill
vars == <<E, left, adj, fill>>
Und == {e \in Nodes \X Nodes : e[1] < e[2]}
Init == /\ E \in SUBSET Und /\ left = Nodes /\ fill = 0
        /\ adj = [i \in Nodes |-> {j \in Nodes : <<i, j>> \in E \/ <<j, i>> \in E}]
Deg(v) == Cardinality(adj[v])
Eliminate(v) ==
  /\ v \in left /\ \A u \in left : Deg(v) <= Deg(u)
  /\ left' = left \ {v} /\ fill' = fill + Deg(v)
  /\ adj' = [u \in Nodes |-> IF u = v THEN {} ELSE IF u \in adj[v] THEN (adj[u] \cup adj[v]) \ {u, v} ELSE adj[u]]
  /\ UNCHANGED E
Next == \E v \in Nodes : Eliminate(v)
Spec == Init /\ [][Next]_vars
Done == left = {}
TypeOK == \A v \in Nodes : adj[v] \subseteq left \ {v}
\* every edge is in L, and L has no more than N(N-1)/2 entries
Bounds == Done => fill >= Cardinality(E) /\ 2 * fill <= N * (N - 1)
\* a forest (at most v-1 edges on every v nodes) is eliminated without fill-in
Forest == \A S \in SUBSET Nodes : S # {} => Cardinality({e \in E : e[1] \in S /\ e[2] \in S}) < Cardinality(S)
NoFillOnForests == Done /\ Forest => fill = Cardinality(E)
Emit == Done => PrintT("CASE " \o ToJson([E |-> E, fill |-> fill]))
=============================================================================
