------------------------------- MODULE QPApi --------------------------------
(* The programming interface over several solver objects: which calls are
   legal when, which memory each call creates and destroys, and that a call on
   one object concerns that object only.

   An object has a configuration: eq (equalities given) and own (the caller's
   own permutation).  heap is the set of live blocks <<object, what>>; the
   caller's arrays are never in it.  Setup consists of several allocations and
   the release of its own scratch memory; solve creates nothing that stays;
   cleanup releases the rest.  calls[h] counts the solves so that a result is a
   function of the object's own past only.

   Histories are emitted for replay: every interleaving of the lives of OBJ
   objects with at most SOLVES solves each.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
H == 1..Num(IOEnv.OBJ)
MaxSolves == Num(IOEnv.SOLVES)
VARIABLES phase, eq, own, heap, calls, hist
vars == <<phase, eq, own, heap, calls, hist>>
Caller == {<<0, "data">>, <<0, "permutation">>}
Lasting(h) == {<<h, "object">>, <<h, "vectors">>, <<h, "matrices">>, <<h, "transposes">>, <<h, "kkt">>, <<h, "factor">>}
              \cup (IF eq[h] THEN {<<h, "y">>, <<h, "At">>} ELSE {})
              \cup (IF own[h] THEN {} ELSE {<<h, "permutation">>})
Scratch(h) == {<<h, "pattern">>} \cup (IF own[h] THEN {} ELSE {<<h, "amd">>})
Init == /\ phase = [h \in H |-> "none"] /\ eq \in [H -> BOOLEAN] /\ own \in [H -> BOOLEAN]
        /\ heap = {} /\ calls = [h \in H |-> 0] /\ hist = <<>>
Log(h, a) == hist' = Append(hist, [h |-> h, do |-> a])
Setup(h) == /\ phase[h] = "none" /\ phase' = [phase EXCEPT ![h] = "ready"]
            /\ heap' = (heap \cup Lasting(h) \cup Scratch(h)) \ Scratch(h)
            /\ Log(h, "setup") /\ UNCHANGED <<eq, own, calls>>
Solve(h) == /\ phase[h] \in {"ready", "solved"} /\ calls[h] < MaxSolves
            /\ phase' = [phase EXCEPT ![h] = "solved"] /\ calls' = [calls EXCEPT ![h] = @ + 1]
            /\ Log(h, "solve") /\ UNCHANGED <<eq, own, heap>>
Cleanup(h) == /\ phase[h] \in {"ready", "solved"} /\ phase' = [phase EXCEPT ![h] = "gone"]
              /\ heap' = {b \in heap : b[1] # h}
              /\ Log(h, "cleanup") /\ UNCHANGED <<eq, own, calls>>
Next == \E h \in H : Setup(h) \/ Solve(h) \/ Cleanup(h)
Spec == Init /\ [][Next]_vars
Mine(h) == {b \in heap : b[1] = h}
Owned == \A h \in H : Mine(h) = IF phase[h] \in {"ready", "solved"} THEN Lasting(h) ELSE {}
CallerSafe == heap \cap Caller = {}
NoLeak == (\A h \in H : phase[h] \in {"none", "gone"}) => heap = {}
\* a step changes the memory of the object it is called on only
Separate == [][\A h \in H : (phase'[h] = phase[h] /\ calls'[h] = calls[h]) => {b \in heap' : b[1] = h} = Mine(h)]_vars
Over == \A h \in H : phase[h] = "gone"
Emit == Over /\ (\A h \in H : ~eq[h] /\ ~own[h]) => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
