------------------------------- MODULE PyCall -------------------------------
(* One call of the Python function as a sequence of steps: parsing, checking
   the arrays and options one after the other, converting the arrays,
   setting up, solving, building the result, cleaning up.  held is the set of
   references and objects the function has taken and not given back.
   All calls that differ in at most two arguments from a well-formed one (of
   several shapes, with and without equalities) are explored and emitted.    *)
EXTENDS PyArgs, TLC, Json, IOUtils
VARIABLES call, pc, held, said, ran
vars == <<call, pc, held, said, ran>>
Full == IOEnv.FULL = "1"
Shapes == {<<2, 3, 1>>, <<1, 1, 0>>, <<3, 2, 2>>, <<4, 6, 2>>, <<0, 1, 0>>, <<2, 0, 1>>}
Arr(t, d) == [k |-> "array", t |-> t, dims |-> d]
Other(n) == [k |-> "other", t |-> n, dims |-> <<>>]
Missing == [k |-> "missing", t |-> "", dims |-> <<>>]
Value(n, t, v, pos, small) == [n |-> n, t |-> t, v |-> v, pos |-> pos, small |-> small]
Absent == Value("absent", "absent", 0, FALSE, FALSE)
Arrays == {"c", "h", "P", "G", "A", "b"}
Dims(s, x) == CASE s = "c" -> <<x[1]>> [] s = "h" -> <<x[2]>> [] s = "b" -> <<x[3]>> [] s = "P" -> <<x[1], x[1]>> [] s = "G" -> <<x[2], x[1]>> [] OTHER -> <<x[3], x[1]>>
Base(x, eq) == [s \in Arrays |-> IF s \in {"A", "b"} /\ ~eq THEN Missing ELSE Arr("f8", Dims(s, x))]
               @@ [o \in {"MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE", "OUTPUT"} |-> Absent]
               @@ [opts |-> "dict", extra |-> FALSE]
Bumps(d) == {[d EXCEPT ![i] = @ + 1] : i \in DOMAIN d} \cup {[d EXCEPT ![i] = IF @ > 0 THEN @ - 1 ELSE 0] : i \in DOMAIN d}
Count(d) == IF Len(d) = 2 THEN d[1] * d[2] ELSE 0
Same(d) == {e \in {<<i, j>> : i, j \in 1..Count(d)} : e[1] * e[2] = Count(d)}        \* the same number of elements, other dimensions
ArrDev(s, x) == LET d == Dims(s, x) IN
  {Arr(t, d) : t \in {"f4", "f2", "g", ">f8", "i8", "b1", "c16", "O", "U1"}}
  \cup {Arr("f8", e) : e \in Bumps(d) \cup {<<>>, Append(d, 1), <<1>> \o d, d \o <<1, 1>>, [i \in 1..Len(d) |-> 0]} \cup (IF Len(d) = 2 THEN {<<d[1]>>, <<d[2], d[1]>>, <<d[1] * d[2]>>} \cup Same(d) ELSE {})}
  \cup {Arr("i8", <<>>), Arr("i8", Append(d, 1)), Arr("f4", <<>>), Other("list"), Other("None"), Other("float"), Other("str"), Missing}
Ints == {Value(ToString(i), "int", i, FALSE, FALSE) : i \in {-2, -1, 0, 1, 2, 3, 5, 199, 200, 201, 1000000}} \cup {Value("True", "int", 1, FALSE, FALSE), Value("False", "int", 0, FALSE, FALSE)}
Huge == {Value("2**70", "huge", 0, FALSE, FALSE), Value("-2**70", "huge", 0, FALSE, FALSE)}
Floats == {Value(n, "float", 0, TRUE, TRUE) : n \in {"0.5", "1e-9", "np.float64(1e-3)", "5e-324"}}
          \cup {Value(n, "float", 0, TRUE, FALSE) : n \in {"1.0", "2.5", "float('inf')"}}
          \cup {Value(n, "float", 0, FALSE, TRUE) : n \in {"0.0", "-0.0", "-1.0", "float('-inf')"}}
          \cup {Value("float('nan')", "float", 0, FALSE, FALSE)}
Odd == {Value(n, "other", 0, FALSE, FALSE) : n \in {"None", "'1'", "np.int64(1)", "np.float32(0.5)", "[1]", "1j", "np.array(0.5)"}}
Values == {Absent} \cup Ints \cup Huge \cup Floats \cup Odd
Slots == Arrays \cup DOMAIN OptMsg \cup {"OUTPUT", "opts", "extra"}
Dev(s, x) == CASE s \in Arrays -> ArrDev(s, x) [] s = "opts" -> {"other", "missing"} [] s = "extra" -> {TRUE} [] OTHER -> Values
Steps == <<"parse", "c", "h", "b", "A", "bA", "G", "hG", "P", "cP", "MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE", "OUTPUT", "convert", "setup", "solve", "result", "cleanup">>
Init ==
  /\ \E x \in Shapes, eq \in BOOLEAN, s1 \in Slots, s2 \in Slots :
       (IF IOEnv.FULL = "one" THEN s1 = s2 ELSE Full \/ x = <<2, 3, 1>> \/ s1 = s2) /\ \E d1 \in Dev(s1, x), d2 \in Dev(s2, x) : call = [[Base(x, eq) EXCEPT ![s1] = d1] EXCEPT ![s2] = d2]
  /\ pc = 1 /\ held = {} /\ said = "" /\ ran = FALSE
Fail(m) == pc' = 99 /\ said' = m /\ UNCHANGED <<call, held, ran>>
Go == pc' = pc + 1 /\ UNCHANGED <<call, said, ran>>
Pass == Go /\ UNCHANGED held
n == IF Len(call.c.dims) > 0 THEN call.c.dims[1] ELSE 0
m == IF Len(call.h.dims) > 0 THEN call.h.dims[1] ELSE 0
p == IF Both(call) /\ Len(call.b.dims) > 0 THEN call.b.dims[1] ELSE 0
At(s) == pc <= Len(Steps) /\ Steps[pc] = s
Vector(s) == At(s) /\ IF (s = "b" => Both(call)) /\ ~Form(call[s], 1) THEN Fail(FormMsg(s)) ELSE Pass
Matrix(s) == At(s) /\ IF (s = "A" => Both(call)) /\ ~Form(call[s], 2) THEN Fail(FormMsg(s)) ELSE Pass
Agree(s, a, d, msg) == At(s) /\ IF (s = "bA" => Both(call)) /\ call[a].dims # d THEN Fail(msg) ELSE Pass
Option(o) == At(o) /\ IF Given(call, o) /\ ~OptOk(o, Opt(call, o)) THEN Fail(OptMsg[o]) ELSE Pass
Take(S) == held' = held \cup S /\ Go
Next ==
  \/ At("parse") /\ IF Parses(call) THEN Pass ELSE Fail("parse")
  \/ \E s \in {"c", "h", "b"} : Vector(s)
  \/ \E s \in {"A", "G", "P"} : Matrix(s)
  \/ Agree("bA", "A", <<p, n>>, "b and A do not have compatible dimensions")
  \/ Agree("hG", "G", <<m, n>>, "h and G do not have compatible dimensions")
  \/ Agree("cP", "P", <<n, n>>, "c and P do not have compatible dimensions")
  \/ \E o \in DOMAIN OptMsg : Option(o)
  \/ At("OUTPUT") /\ Pass
  \/ At("convert") /\ Take({s \in Arrays : s \in {"A", "b"} => Both(call)})
  \/ At("setup") /\ Take({"object"})
  \/ At("solve") /\ ran' = TRUE /\ pc' = pc + 1 /\ UNCHANGED <<call, held, said>>
  \/ At("result") /\ Take({"answer"})
  \/ At("cleanup") /\ held' = {"answer"} /\ Go
Spec == Init /\ [][Next]_vars
Over == pc = 99 \/ pc > Len(Steps)
Decides == Over => ((pc # 99) <=> Accepted(call))
Explains == pc = 99 => IF Parses(call) THEN said \in Faults(call) ELSE said = "parse"
Clean == Over => held = (IF pc = 99 THEN {} ELSE {"answer"})
NoSolveOnError == pc = 99 => ~ran
Emit == Over => PrintT("CASE " \o ToJson([call |-> call]))
=============================================================================
