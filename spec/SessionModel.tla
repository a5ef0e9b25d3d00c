---------------------------- MODULE SessionModel ----------------------------
(* One solver object and its user over time, with the numbers abstracted away:
   need = iterations still missing until the convergence test holds for the
   present data and options (what a change of either does to it is left open).

   A solve under limit L tests before every iteration and once more not after
   the last one: it converges iff need < L, and reports what it found, whatever
   happened before.  Histories are collected in hist and emitted; the real
   object is driven through them (SessionTrace).                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
D == Num(IOEnv.DEPTH)
K == 3
VARIABLES need, code, last, hist
vars == <<need, code, last, hist>>
Limits == {0, 1, 2, 3, 100}
Changes == {"tight", "loose", "standard", "verbose", "c", "h", "b", "restore", "sigma", "sigmad"}
Init == need \in 0..K /\ code = "none" /\ last = <<>> /\ hist = <<>>
Solve(L) ==
  /\ hist' = Append(hist, [do |-> "solve", limit |-> L])
  /\ last' = <<need, L>>
  /\ IF need < L THEN need' = 0 /\ code' = "Optimal"
                 ELSE need' = need - L /\ code' = "Maximum-Iterations"
Change(a) ==
  /\ hist' = Append(hist, [do |-> a, limit |-> 0])
  /\ need' \in IF a = "verbose" THEN {need} ELSE 0..K
  /\ UNCHANGED <<code, last>>
Next == /\ Len(hist) < D
        /\ \/ \E L \in Limits : Solve(L)
           \/ \E a \in Changes : Change(a)
Spec == Init /\ [][Next]_vars
\* the code tells what the solve just made found, never more and never less
Truth == last # <<>> => (code = "Optimal" <=> last[1] < last[2])
\* splitting a run changes nothing: limits a then b do what a + b does, except
\* that a run stopped exactly at convergence still has to be told so
Run(n, L) == IF n < L THEN [n |-> 0, c |-> "Optimal"] ELSE [n |-> n - L, c |-> "Maximum-Iterations"]
Split == \A n \in 0..K : \A a, b \in Limits :
           LET one == Run(n, a) IN one.c = "Maximum-Iterations" => Run(one.n, b) = Run(n, a + b)
Idempotent == code = "Optimal" /\ need = 0 => \A L \in Limits : L > 0 => Run(need, L) = [n |-> 0, c |-> "Optimal"]
Emit == Len(hist) = D => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
