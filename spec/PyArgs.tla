------------------------------- MODULE PyArgs -------------------------------
(* The calls of the Python function run(c, h, P, G, A, b, opts) and which of
   them are well formed.  An argument is a record
     [k |-> "array" | "other" | "missing", t |-> element type, dims |-> shape]
   opts is "dict", "other" or "missing"; an option value is
     [t |-> "absent" | "int" | "huge" | "float" | "other", v |-> integer value,
      pos |-> the float is > 0, small |-> the float is < 1].
   Faults is the set of documented complaints that apply to a call.          *)
EXTENDS Integers, Sequences, FiniteSets
FloatTypes == {"f8", "f4", "f2", "g", ">f8", ">f4", "<f8"}
Required == {"c", "h", "P", "G"}
IsArray(a) == a.k = "array"
Parses(call) ==
  /\ \A s \in Required : IsArray(call[s])
  /\ \A s \in {"A", "b"} : call[s].k \in {"array", "missing"}
  /\ call.opts \in {"dict", "missing"}
  /\ ~call.extra
Both(call) == IsArray(call.A) /\ IsArray(call.b)
Form(a, d) == a.t \in FloatTypes /\ Len(a.dims) = d
Opt(call, o) == IF call.opts = "dict" THEN call[o] ELSE [t |-> "absent", v |-> 0, pos |-> FALSE, small |-> FALSE]
Given(call, o) == Opt(call, o).t # "absent"
FormMsg(s) == CASE s \in {"c", "h", "b"} -> s \o " must be a floating array with one dimension"
                [] OTHER -> s \o " must be a floating matrix with two dimensions"
FormFaults(call) ==
  {FormMsg(s) : s \in {s \in {"c", "h"} : ~Form(call[s], 1)}
                      \cup {s \in {"P", "G"} : ~Form(call[s], 2)}
                      \cup (IF Both(call) THEN {s \in {"b"} : ~Form(call[s], 1)} \cup {s \in {"A"} : ~Form(call[s], 2)} ELSE {})}
Known(call, s, d) == Form(call[s], d)
ShapeFaults(call) ==
  LET n == call.c.dims[1] m == call.h.dims[1] p == call.b.dims[1]
      okc == Form(call.c, 1) okh == Form(call.h, 1)
  IN (IF okc /\ okh /\ Form(call.G, 2) /\ call.G.dims # <<m, n>> THEN {"h and G do not have compatible dimensions"} ELSE {})
     \cup (IF okc /\ Form(call.P, 2) /\ call.P.dims # <<n, n>> THEN {"c and P do not have compatible dimensions"} ELSE {})
     \cup (IF Both(call) /\ okc /\ Form(call.b, 1) /\ Form(call.A, 2) /\ call.A.dims # <<p, n>> THEN {"b and A do not have compatible dimensions"} ELSE {})
OptMsg == [MAXITER |-> "max iterations must be between 0 and 200, using the default value of 100",
           ABSTOL |-> "absolute tolerance must be between 0 and 1, using the default value",
           RELTOL |-> "realtive tolerance must be between 0 and 1, using the default value",
           SIGMA |-> "sigma must be positive, using the default value",
           VERBOSE |-> "verbose must be non-negative integer, using the default value"]
OptOk(o, x) == CASE o = "MAXITER" -> x.t = "int" /\ x.v > 0 /\ x.v < 200
                 [] o \in {"ABSTOL", "RELTOL"} -> x.t = "float" /\ x.pos /\ x.small
                 [] o = "SIGMA" -> x.t = "float" /\ x.pos
                 [] OTHER -> x.t = "int" /\ x.v >= 0
OptFaults(call) == {OptMsg[o] : o \in {o \in DOMAIN OptMsg : Given(call, o) /\ ~OptOk(o, Opt(call, o))}}
Faults(call) == FormFaults(call) \cup ShapeFaults(call) \cup OptFaults(call)
Accepted(call) == Parses(call) /\ Faults(call) = {}
Warns(call) == Given(call, "OUTPUT") /\ ~OptOk("OUTPUT", Opt(call, "OUTPUT"))
Level(call) == IF Given(call, "OUTPUT") /\ ~Warns(call) THEN Opt(call, "OUTPUT").v ELSE 10
Keys(call) == CASE Level(call) = 1 -> {"sol", "basicInfo"} [] Level(call) = 2 -> {"sol", "basicInfo", "advInfo"} [] OTHER -> {"sol"}
BasicKeys == {"ExitFlag", "Iterations", "Setup_Time", "Solve_Time"}
AdvKeys(call) == {"fval", "kktTime", "ldlTime", "z", "s"} \cup (IF Both(call) THEN {"y"} ELSE {})
=============================================================================
