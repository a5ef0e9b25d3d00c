----------------------------- MODULE FailTrace ------------------------------
(* Histories of one object whose LDL' factorisation reports a zero pivot at a
   chosen call (failat; 1 is the one of the setup, k+2 the one of iteration k
   counted from 0; 0: none).

   ref[k+1] is what an undisturbed object holds after k iterations, conv the
   number of iterations after which it converged (-1: not among those seen).
   The object is "fine" until the failing factorisation is reached; then it is
   "failed" for good: every later solve returns 1 at once.  Events:
     setup            flag, w, leaves the object failed iff failat = 1
     solve  limit     code, flag, iter, w, calls of the factorisation, the
                      printed lines (verbose > 0)
     cleanup          live = blocks still allocated                          *)
EXTENDS QP, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
WANT == IOEnv.WANT
VARIABLES c, l, state, k, w, bad
vars == <<c, l, state, k, w, bad>>
Case == Cases[c]
Evs == Case.evs
Ref(i) == Case.ref[i+1]
Clause(prop, name, val) == IF WANT # prop THEN {} ELSE IF val THEN {} ELSE {<<prop, name>>}
SameW(a, b) == VSame(a.x, b.x) /\ VSame(a.y, b.y) /\ VSame(a.z, b.z) /\ VSame(a.s, b.s)
Init == c \in 1..Len(Cases) /\ l = 0 /\ state = "none" /\ k = 0 /\ w = <<>> /\ bad = {}
FailsAt == Case.failat - 2                \* the iteration whose factorisation fails
\* what a solve under a limit must do
Outcome(limit) ==
  LET stop == k + limit
      conv == IF Case.conv >= k /\ Case.conv < stop THEN Case.conv ELSE stop
  IN IF state = "failed" THEN [code |-> 1, iter |-> k]
     ELSE IF Case.failat >= 2 /\ FailsAt >= k /\ FailsAt < conv THEN [code |-> 1, iter |-> FailsAt]
     ELSE IF conv < stop THEN [code |-> 0, iter |-> conv] ELSE [code |-> 2, iter |-> stop]
Word(code) == CASE code = 0 -> "Optimal" [] code = 1 -> "KKT" [] OTHER -> "Maximum-Iterations"
Lines(e, o) ==
  LET tests == IF state = "failed" THEN 0 ELSE (o.iter - k) + (IF o.code = 2 THEN 0 ELSE 1)
  IN IF e.verbose <= 0 THEN Clause("C15", "silent without verbosity", e.lines.bytes = 0)
     ELSE Clause("C15", "one line per iterate tested", Len(e.lines.its) = tests)
          \cup Clause("C15", "one line per step taken", Len(e.lines.steps) = o.iter - k)
          \cup Clause("C15", "final status", e.lines.status = <<Word(o.code)>>)
Setup(e) ==
  /\ bad' = Clause("C04", "a failed setup is recorded", (e.flag = 1) <=> (Case.failat = 1))
            \cup Clause("C04", "no iteration yet", e.iter = 0)
  /\ state' = (IF Case.failat = 1 THEN "failed" ELSE "fine") /\ k' = 0 /\ w' = e.w
Solved(e) ==
  LET o == Outcome(e.limit) IN
  /\ bad' = bad
       \cup Clause("C04", "code", e.code = o.code)
       \cup Clause("C04", "returned code is the stored one", e.flag = e.code)
       \cup Clause("C04", "iterations", e.iter = o.iter)
       \cup Clause("C04", "nothing is factorised after a failure", state = "failed" => e.calls = 0)
       \cup Clause("C04", "iterate", SameW(e.w, IF state = "failed" \/ o.iter = k THEN w ELSE Ref(o.iter)))
       \cup Lines(e, o)
       \cup Clause("C12", "times", \A i \in 1..4 : DFinite(e.t[i]) /\ DLe(DZero, e.t[i]))
  /\ state' = (IF o.code = 1 THEN "failed" ELSE "fine") /\ k' = o.iter /\ w' = e.w
Cleanup(e) == /\ bad' = bad \cup Clause("C08", "cleanup after a failed factorisation returns everything", e.live = 0)
                            \cup Clause("C08", "frees only its blocks, once, undamaged", e.odd = 0)
              /\ state' = "none" /\ UNCHANGED <<k, w>>
Next ==
  /\ l < Len(Evs) /\ l' = l + 1 /\ UNCHANGED c
  /\ LET e == Evs[l+1] IN CASE e.do = "setup" -> Setup(e) [] e.do = "solve" -> Solved(e) [] OTHER -> Cleanup(e)
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
