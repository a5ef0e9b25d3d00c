------------------------------ MODULE SimBlock ------------------------------
(* A Simulink model with two solver blocks.  The signals at a block's inputs
   may change at any time; a step of a block publishes the solution of the
   problem at its inputs then, and nothing else about the past matters.
   Every history of at most STEPS steps over PROBS problems is emitted.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
B == 1..2
Probs == 1..Num(IOEnv.PROBS)
MaxSteps == Num(IOEnv.STEPS)
VARIABLES on, input, out, steps, hist
vars == <<on, input, out, steps, hist>>
Init == on = [b \in B |-> FALSE] /\ input = [b \in B |-> 1] /\ out = [b \in B |-> 0] /\ steps = 0 /\ hist = <<>>
Log(b, a, k) == hist' = Append(hist, [b |-> b, do |-> a, k |-> k])
Start(b) == ~on[b] /\ steps < MaxSteps /\ out[b] = 0 /\ (b = 2 => on[1]) /\ on' = [on EXCEPT ![b] = TRUE] /\ Log(b, "start", 0) /\ UNCHANGED <<input, out, steps>>
Step(b) == /\ on[b] /\ steps < MaxSteps /\ steps' = steps + 1
           /\ \E k \in Probs : input' = [input EXCEPT ![b] = k] /\ out' = [out EXCEPT ![b] = k] /\ Log(b, "step", k)
           /\ UNCHANGED on
Stop == /\ steps = MaxSteps /\ (\E d \in B : on[d]) /\ on' = [d \in B |-> FALSE] /\ hist' = Append(hist, [b |-> 0, do |-> "stop", k |-> 0]) /\ UNCHANGED <<input, out, steps>>
Next == (\E d \in B : Start(d) \/ Step(d)) \/ Stop
Spec == Init /\ [][Next]_vars
Current == \A b \in B : out[b] # 0 => out[b] = input[b]
Separate == [][\A b \in B : (\A d \in B \ {b} : out'[d] = out[d] /\ on'[d] = on[d]) \/ (out'[b] = out[b])]_vars
Emit == (Len(hist) > 0 /\ hist[Len(hist)].do = "stop") => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
