------------------------------ MODULE MexTrace ------------------------------
(* Real calls of the MATLAB gateway against MexArgs.
     how     "returned" | "error"      msg  the error text
     counts  <<setups, solves, cleanups>> of the library
     outs    [cls, sparse, cplx, dims] of every output that was set
     basic, adv  field names, res the numbers, ref those of the library itself
     kept    inputs unchanged           printed  settings printed, inforce those in force
     alive   an ordinary call right after still works                        *)
EXTENDS MexArgs, IEEE, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
WANT == IOEnv.WANT
VARIABLES c, l, bad
vars == <<c, l, bad>>
Clause(prop, name, val) == IF WANT # prop THEN {} ELSE IF val THEN {} ELSE {<<prop, name>>}
SetOf(q) == {q[i] : i \in 1..Len(q)}
Col(k) == [cls |-> "double", sparse |-> FALSE, cplx |-> FALSE, dims |-> <<k, 1>>]
Time(a) == DFinite(a) /\ ~DLt(a, DZero)
Decision(e) ==
  IF Help(e.call) THEN Clause("C20", "help only", e.how = "returned" /\ e.counts[2] = 0)
  ELSE IF Accepted(e.call) THEN Clause("C20", "a well-formed call is accepted", e.how = "returned") \cup Clause("C20", "solves once", e.counts[2] = 1)
  ELSE Clause("C20", "an ill-formed call is an error", e.how = "error") \cup Clause("C20", "no solve before an error", e.counts[2] = 0)
       \cup Clause("C20", "the error names a fault of the call", e.how = "error" => e.msg \in Faults(e.call))
Content(e) ==
  IF e.how # "returned" \/ ~Accepted(e.call) THEN {}
  ELSE Clause("C20", "number of outputs", Len(e.outs) = e.call.nlhs)
       \cup Clause("C20", "sol", e.outs[1] = Col(n(e.call)) /\ e.res.x = e.ref.x)
       \cup (IF e.call.nlhs < 2 THEN {} ELSE
             Clause("C20", "basic info fields", SetOf(e.basic) = BasicFields)
             \cup Clause("C20", "exit flag and iterations", e.res.flag = e.ref.flag /\ e.res.iter = e.ref.iter)
             \cup Clause("C20", "times", Time(e.res.tsetup) /\ Time(e.res.tsolve)))
       \cup (IF e.call.nlhs < 3 THEN {} ELSE
             Clause("C20", "advanced info fields", SetOf(e.adv) = AdvFields)
             \cup Clause("C20", "objective", e.res.fval = e.ref.fval)
             \cup Clause("C20", "multipliers and slacks", e.res.z = e.ref.z /\ e.res.s = e.ref.s /\ e.res.y = e.ref.y)
             \cup Clause("C20", "times of the parts", Time(e.res.tkkt) /\ Time(e.res.tldl)))
       \cup Clause("C20", "settings printed are those in force", e.printed = e.inforce)
Always(e) == Clause("C20", "inputs are untouched", e.kept) \cup Clause("C20", "the session goes on", e.alive)
Init == c \in 1..Len(Cases) /\ l = 0 /\ bad = {}
Next == l = 0 /\ l' = 1 /\ UNCHANGED c /\ bad' = LET e == Cases[c] IN Decision(e) \cup Content(e) \cup Always(e)
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
