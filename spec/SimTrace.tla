------------------------------ MODULE SimTrace ------------------------------
(* Recorded lives of real Simulink blocks against SimBlock.  Events:
     start  ports: number, widths (open: of the inputs, -1 = any), feedthrough and
            sample time after initialisation
     step   out: what the block published, ref: the library's own answer for
            the problem at the inputs now; counts, live, kept as elsewhere     *)
EXTENDS Integers, Sequences, IEEE, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
WANT == IOEnv.WANT
VARIABLES c, l, on, bad
vars == <<c, l, on, bad>>
Case == Cases[c]
Evs == Case.evs
Clause(prop, name, val) == IF WANT # prop THEN {} ELSE IF val THEN {} ELSE {<<prop, name>>}
Time(a) == DFinite(a) /\ ~DLt(a, DZero)
Init == c \in 1..Len(Cases) /\ l = 0 /\ on = {} /\ bad = {}
Started(e) ==
  Clause("C20", "ports", e.nin = (IF Case.eq THEN 6 ELSE 4) /\ e.nout = 5 /\ e.width = <<e.nv, 1, 1, 1, 1>>)
  \cup Clause("C20", "outputs depend on the inputs of the same step", \A i \in 1..e.nin : e.feed[i] = 1)
  \cup Clause("C20", "no states", e.states = 0)
  \cup Clause("C20", "inputs of any size", \A i \in 1..e.nin : e.open[i] = -1)
  \cup Clause("C20", "runs at every step of its inputs", e.clock)
Stepped(e) ==
  Clause("C20", "publishes the solution of the problem at its inputs", e.out.x = e.ref.x)
  \cup Clause("C20", "publishes exit flag and iterations", e.out.flag = e.ref.flag /\ e.out.iter = e.ref.iter)
  \cup Clause("C20", "publishes times", Time(e.out.tsetup) /\ Time(e.out.tsolve))
  \cup Clause("C20", "inputs are untouched", e.kept)
  \cup Clause("C20", "writes only its outputs", e.others)
  \cup Clause("C20", "no memory stays behind a step", e.live = 0)
  \cup Clause("C20", "one solve per step", e.counts = <<1, 1, 1>>)
Next ==
  /\ l < Len(Evs) /\ l' = l + 1 /\ UNCHANGED c
  /\ LET e == Evs[l+1] IN
     /\ CASE e.do = "start" -> e.b \notin on /\ on' = on \cup {e.b}
          [] e.do = "step" -> e.b \in on /\ UNCHANGED on
          [] OTHER -> on' = {}
     /\ bad' = CASE e.do = "start" -> Started(e) [] e.do = "step" -> Stepped(e) [] OTHER -> {}
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
