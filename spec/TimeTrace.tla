------------------------------ MODULE TimeTrace ------------------------------
(* The times reported for a history of calls on one object, against a clock
   that is part of the observation: every reading the library takes advances a
   simulated clock by a chosen step, and is recorded.

   A reading is <<seconds, nanoseconds>>.  Setup and solve are timed sections
   that begin with the first reading of their call and end with the last; the
   KKT and factorisation times add up sections that lie inside.  Events:
     setup  read, t = <<tsetup>>
     solve  read, t = <<tsetup, tsolve, kkt, ldl>>, made = iterations of this
            solve, step = a lower bound on the distance of any two readings  *)
EXTENDS IEEE, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, clock, tsetup, bad
vars == <<c, l, clock, tsetup, bad>>
Evs == Cases[c].evs
Clause(name, val) == IF val THEN {} ELSE {<<"C12", name>>}
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* exact interval, as normalised seconds and nanoseconds
Interval(a, b) == IF b[2] < a[2] THEN <<b[1] - a[1] - 1, 1000000000 - a[2] + b[2]>> ELSE <<b[1] - a[1], b[2] - a[2]>>
Secs(d) == DAdd(DInt(d[1]), DDiv(DInt(d[2]), DInt(1000000000)))
Eps == DParse("1e-12")
Is(t, a, b) == LET v == Secs(Interval(a, b)) IN DNear(t, v, DMul(Eps, v))
NotMore(a, b) == DLe(a, DMul(b, DParse("1.000000000001")))
Good(t) == DFinite(t) /\ DLe(DZero, t)

Init == c \in 1..Len(Cases) /\ l = 0 /\ clock = Cases[c].start /\ tsetup = DZero /\ bad = {}
Last(e) == e.read[Len(e.read)]
Runs(e) == Len(e.read) >= 2 /\ Before(clock, e.read[1]) /\ \A i \in 1..Len(e.read)-1 : Before(e.read[i], e.read[i+1])
Setup(e) == Clause("setup time", Is(e.t[1], e.read[1], Last(e)))
Solve(e) ==
  Clause("times are finite and not negative", \A i \in 1..4 : Good(e.t[i]))
  \cup Clause("setup time stays", DSame(e.t[1], tsetup))
  \cup Clause("solve time", Is(e.t[2], e.read[1], Last(e)))
  \cup Clause("KKT time within the solve time", NotMore(e.t[3], e.t[2]))
  \cup Clause("factorisation time within the KKT time", NotMore(e.t[4], e.t[3]))
  \cup Clause("every iteration is part of the KKT time", LET d == DMul(DInt(e.made), Secs(e.step)) IN NotMore(d, e.t[3]))
  \cup Clause("factorisation time is counted", e.made > 0 => NotMore(Secs(e.step), e.t[4]))
Next ==
  /\ l < Len(Evs) /\ l' = l + 1 /\ UNCHANGED c
  /\ LET e == Evs[l+1] IN
     /\ Runs(e) /\ clock' = Last(e)
     /\ bad' = IF e.do = "setup" THEN Setup(e) ELSE Solve(e)
     /\ tsetup' = e.t[1]
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
