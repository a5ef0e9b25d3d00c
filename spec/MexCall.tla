------------------------------ MODULE MexCall -------------------------------
(* One call of the MATLAB gateway as the sequence of its checks and actions;
   all calls that differ in at most two arguments from a well-formed one are
   explored, the decision is compared with MexArgs, and each is emitted.     *)
EXTENDS MexArgs, TLC, Json, IOUtils
VARIABLES call, pc, said, solved
vars == <<call, pc, said, solved>>
Full == IOEnv.FULL = "1"
Shapes == {<<2, 3, 1>>, <<1, 1, 1>>, <<3, 2, 2>>}
A0(cls, sp, cx, d) == [cls |-> cls, sparse |-> sp, cplx |-> cx, dims |-> d]
Mats == {"P", "A", "G"}
Vecs == {"c", "b", "h"}
Dims(s, x) == CASE s = "c" -> <<x[1], 1>> [] s = "h" -> <<x[2], 1>> [] s = "b" -> <<x[3], 1>> [] s = "P" -> <<x[1], x[1]>> [] s = "G" -> <<x[2], x[1]>> [] OTHER -> <<x[3], x[1]>>
V(nm, neg, nan, le200, le1) == [n |-> nm, t |-> "real", neg |-> neg, nan |-> nan, le200 |-> le200, le1 |-> le1, low |-> FALSE]
Bad(nm) == [n |-> nm, t |-> "bad", neg |-> FALSE, nan |-> FALSE, le200 |-> FALSE, le1 |-> FALSE, low |-> FALSE]
None == [Bad("absent") EXCEPT !.t = "absent"]
Values == LET R == {None, V("0", FALSE, FALSE, TRUE, TRUE), V("1", FALSE, FALSE, TRUE, TRUE), V("int32(1)", FALSE, FALSE, TRUE, TRUE), V("logical(1)", FALSE, FALSE, TRUE, TRUE), V("single(1)", FALSE, FALSE, TRUE, TRUE), V("uint8(7)", FALSE, FALSE, TRUE, FALSE),
                     V("1e-3", FALSE, FALSE, TRUE, TRUE), V("7", FALSE, FALSE, TRUE, FALSE), V("200", FALSE, FALSE, TRUE, FALSE), V("200.5", FALSE, FALSE, FALSE, FALSE), V("201", FALSE, FALSE, FALSE, FALSE),
                     V("-1", TRUE, FALSE, TRUE, TRUE), V("-0.25", TRUE, FALSE, TRUE, TRUE), V("int32(-1)", TRUE, FALSE, TRUE, TRUE), V("1.25", FALSE, FALSE, TRUE, FALSE), V("NaN", FALSE, TRUE, FALSE, FALSE), Bad("[]"), Bad("cell"), Bad("complex"), Bad("char")}
          IN R \cup {[v EXCEPT !.low = TRUE] : v \in {v \in R : v.n \in {"1", "7", "1e-3", "-1"}}}
NoPerm == [cls |-> "absent", sparse |-> FALSE, cplx |-> FALSE, dims |-> <<1, 1>>, valid |-> TRUE, low |-> "PERMUT"]
Perm(cls, sp, cx, d, ok, nm) == [cls |-> cls, sparse |-> sp, cplx |-> cx, dims |-> d, valid |-> ok, low |-> nm]
Perms(x, eq) == LET k == x[1] + x[2] + (IF eq THEN x[3] ELSE 0) IN
  {NoPerm} \cup {Perm("double", FALSE, FALSE, d, ok, nm) : d \in {<<k, 1>>, <<1, k>>}, ok \in BOOLEAN, nm \in {"PERMUT", "permut", "Permut"}}
  \cup {Perm("double", FALSE, FALSE, d, TRUE, "PERMUT") : d \in {<<k + 1, 1>>, <<k - 1, 1>>, <<k, 2>>, <<1, k, 2>>, <<0, 0>>, <<k, 0>>}}
  \cup {Perm(cls, FALSE, FALSE, <<k, 1>>, TRUE, "PERMUT") : cls \in {"single", "int32", "cell"}}
  \cup {Perm("double", TRUE, FALSE, <<k, 1>>, TRUE, "PERMUT"), Perm("double", FALSE, TRUE, <<k, 1>>, TRUE, "PERMUT")}
Base(x, k, out) == [s \in Mats \cup Vecs |-> A0("double", s \in Mats, FALSE, Dims(s, x))] @@ [o \in Options |-> None]
                   @@ [PERMUT |-> NoPerm, opts |-> "struct", nrhs |-> k, nlhs |-> out]
Bumps(d) == {[d EXCEPT ![i] = @ + 1] : i \in DOMAIN d} \cup {[d EXCEPT ![i] = @ - 1] : i \in {i \in DOMAIN d : d[i] > 0}}
ArrDev(s, x) == LET d == Dims(s, x) sp == s \in Mats IN
  {A0("double", sp, FALSE, e) : e \in Bumps(d) \cup {<<d[2], d[1]>>, <<0, 0>>, <<1, 1>>}} \cup (IF sp THEN {} ELSE {A0("double", FALSE, FALSE, e) : e \in {<<d[1], 1, 2>>, <<1, d[1], 2>>, <<d[1], 1, 0>>}})
  \cup {A0("double", ~sp, FALSE, d), A0("double", sp, TRUE, d), A0("logical", sp, FALSE, d), A0("single", FALSE, FALSE, d), A0("int32", FALSE, FALSE, d), A0("cell", FALSE, FALSE, d), A0("char", FALSE, FALSE, d), A0("struct", FALSE, FALSE, <<1, 1>>)}
Slots == Mats \cup Vecs \cup Options \cup {"PERMUT", "opts", "nrhs", "nlhs"}
Dev(s, x, k) == CASE s \in Mats \cup Vecs -> ArrDev(s, x) [] s \in Options -> Values [] s = "PERMUT" -> Perms(x, k \in {6, 7}) [] s = "opts" -> {"other", "void"} [] s = "nrhs" -> 0..9 [] OTHER -> 0..4
Init ==
  /\ \E x \in Shapes, k \in 4..7, s1 \in Slots, s2 \in Slots :
       /\ Full \/ s1 = s2 \/ (x = <<2, 3, 1>> /\ k \in {5, 7})
       /\ \E d1 \in Dev(s1, x, k), d2 \in Dev(s2, x, k) : call = [[Base(x, k, IF s1 = s2 THEN 3 ELSE 2) EXCEPT ![s1] = d1] EXCEPT ![s2] = d2]
  /\ pc = "count" /\ said = "" /\ solved = FALSE
Fail(msg) == pc' = "error" /\ said' = msg /\ UNCHANGED <<call, solved>>
To(s) == pc' = s /\ UNCHANGED <<call, said, solved>>
Check(S, s) == IF S = {} THEN To(s) ELSE \E f \in S : Fail(f)
Next ==
  \/ pc = "count" /\ IF Help(call) THEN To("help") ELSE IF Counted(call) THEN To("arrays") ELSE \E f \in CountFaults(call) : Fail(f)
  \/ pc = "arrays" /\ Check(ArrayFaults(call), "permutation")
  \/ pc = "permutation" /\ Check(PermFaults(call), "setup")
  \/ pc = "setup" /\ To("settings")
  \/ pc = "settings" /\ Check(OptFaults(call), "solve")
  \/ pc = "solve" /\ pc' = "outputs" /\ solved' = TRUE /\ UNCHANGED <<call, said>>
  \/ pc = "outputs" /\ To("done")
Spec == Init /\ [][Next]_vars
Over == pc \in {"done", "error", "help"}
Decides == Over => ((pc = "done") <=> Accepted(call))
Explains == pc = "error" => said \in Faults(call)
NoSolveOnError == pc \in {"error", "help"} => ~solved
Emit == (pc = "count") => PrintT("CASE " \o ToJson([call |-> call]))
=============================================================================
