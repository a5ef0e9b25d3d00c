------------------------------ MODULE PyTrace -------------------------------
(* Real calls of the Python function against PyArgs.  A case holds the
   arguments (call, see PyArgs), what came out,
     how     "returned" or "raised"      exc, msg   the exception
     keys, basic, adv                    the keys of the result and its parts
     warned  number of UserWarnings      strict  warnings were turned into exceptions
     refs    change of the reference counts of all objects passed in
     counts  <<setups, solves, cleanups>> of the library during the call
     live    blocks of the library alive afterwards (-1: not watched)
     alive   an ordinary call right after still works
     res     the numbers returned,  ref  those of the native library for the
             same data in double precision and the same options
     kept    the caller's arrays hold the same bytes
     fresh   the arrays returned are one-dimensional doubles owned by the
             caller alone;  growth  memory blocks that repeated calls left behind
     printed what was printed before solving (empty at level 0)             *)
EXTENDS PyArgs, IEEE, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
WANT == IOEnv.WANT
VARIABLES c, l, bad
vars == <<c, l, bad>>
Clause(prop, name, val) == IF WANT # prop THEN {} ELSE IF val THEN {} ELSE {<<prop, name>>}
SetOf(q) == {q[i] : i \in 1..Len(q)}
Strict(e) == e.strict /\ Warns(e.call)
Runs(e) == Accepted(e.call) /\ ~Strict(e)
Decision(e) ==
  IF Runs(e) THEN Clause("C13", "a well-formed call is accepted", e.how = "returned")
  ELSE Clause("C13", "an ill-formed call raises", e.how = "raised")
       \cup (IF e.how # "raised" THEN {}
             ELSE IF Accepted(e.call) THEN Clause("C13", "the warning is the exception", e.exc = "UserWarning")
             ELSE Clause("C13", "documented exception", e.exc = "TypeError" \/ (Strict(e) /\ e.exc = "UserWarning"))
                  \cup Clause("C13", "documented message", Parses(e.call) /\ e.exc = "TypeError" => e.msg \in Faults(e.call)))
State(e) ==
  Clause("C13", "no reference of the arguments is kept or lost", \A i \in 1..Len(e.refs) : e.refs[i] = 0)
  \cup Clause("C13", "solves once if accepted, never otherwise", Len(e.counts) = 3 => e.counts = IF Runs(e) THEN <<1, 1, 1>> ELSE <<0, 0, 0>>)
  \cup Clause("C13", "the solver's memory is returned", e.live \in {-1, 0})
  \cup Clause("C13", "the interpreter goes on", e.alive)
  \cup Clause("C13", "invalid OUTPUT warns once and nothing else does", e.how = "returned" => e.warned = IF Warns(e.call) THEN 1 ELSE 0)
  \cup Clause("C13", "result parts", e.how = "returned" => SetOf(e.keys) = Keys(e.call))
Time(a) == DFinite(a) /\ ~DLt(a, DZero)
Content(e) ==
  IF e.how # "returned" THEN {}
  ELSE Clause("C14", "sol", e.res.x = e.ref.x)
       \cup Clause("C14", "parts for the OUTPUT level", SetOf(e.keys) = Keys(e.call))
       \cup (IF "basicInfo" \in SetOf(e.keys)
             THEN Clause("C14", "basicInfo parts", SetOf(e.basic) = BasicKeys)
                  \cup Clause("C14", "ExitFlag and Iterations", e.res.flag = e.ref.flag /\ e.res.iter = e.ref.iter)
                  \cup Clause("C14", "times", Time(e.res.tsetup) /\ Time(e.res.tsolve))
             ELSE {})
       \cup (IF "advInfo" \in SetOf(e.keys)
             THEN Clause("C14", "advInfo parts", SetOf(e.adv) = AdvKeys(e.call))
                  \cup Clause("C14", "fval", e.res.fval = e.ref.fval)
                  \cup Clause("C14", "multipliers and slacks", e.res.z = e.ref.z /\ e.res.s = e.ref.s /\ (Both(e.call) => e.res.y = e.ref.y))
                  \cup Clause("C14", "kkt and ldl times", Time(e.res.tldl) /\ Time(e.res.tkkt))
             ELSE {})
       \cup Clause("C14", "results are fresh arrays", e.fresh)
       \cup Clause("C14", "nothing printed at level 0", (~Given(e.call, "VERBOSE") \/ Opt(e.call, "VERBOSE").v = 0) => e.printed = <<>>)
       \cup Clause("C14", "the settings printed are those in force", Given(e.call, "VERBOSE") /\ Opt(e.call, "VERBOSE").v > 0 => e.printed = e.inforce)
Always(e) ==
  Clause("C14", "the caller's arrays are unchanged", e.kept)
  \cup Clause("C14", "repeated calls leave nothing behind", e.growth < 100)
Init == c \in 1..Len(Cases) /\ l = 0 /\ bad = {}
Next == l = 0 /\ l' = 1 /\ UNCHANGED c /\ bad' = LET e == Cases[c] IN Decision(e) \cup State(e) \cup Content(e) \cup Always(e)
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
