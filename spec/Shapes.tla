------------------------------- MODULE Shapes -------------------------------
(* Every small argument of the building blocks, with the integer facts their
   definitions rest on; emitted for replay into the real functions.
   KIND = "mat":  0/1 patterns of an MM x NN matrix
   KIND = "step": slacks v in 1..2, directions dv in -2..2, length NN
   KIND = "vec":  vectors over -1..1, length NN                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
N == Num(IOEnv.NN)
M == Num(IOEnv.MM)
KIND == IOEnv.KIND
VARIABLES a, b
vars == <<a, b>>
Init == CASE KIND = "mat"  -> a \in [1..M -> [1..N -> 0..1]] /\ b = <<>>
          [] KIND = "step" -> a \in [1..N -> 1..2] /\ b \in [1..N -> -2..2]
          [] KIND = "vec"  -> a \in [1..N -> -1..1] /\ b \in [1..N -> {-1, 1}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* transposition is an involution
T(X, r, k) == [j \in 1..k |-> [i \in 1..r |-> X[i][j]]]
Involution == KIND = "mat" => T(T(a, M, N), N, M) = a
\* the smallest ratio is the largest step that keeps v + t dv >= 0 (t = p/q exactly)
Neg == {i \in 1..N : b[i] < 0}
Best == CHOOSE i \in Neg : \A j \in Neg : a[i] * (-b[j]) <= a[j] * (-b[i])
StepMax == KIND = "step" /\ Neg # {} =>
   LET p == a[Best]  q == -b[Best]
   IN /\ \A i \in 1..N : q * a[i] + p * b[i] >= 0
      /\ \E i \in 1..N : q * a[i] + p * b[i] = 0 /\ b[i] < 0     \* any longer step leaves
MinMax == KIND = "vec" /\ N > 0 => LET mn == CHOOSE i \in 1..N : \A j \in 1..N : a[i] <= a[j]
                                        mx == CHOOSE i \in 1..N : \A j \in 1..N : a[j] <= a[i] IN a[mn] <= a[mx]
Emit == PrintT("CASE " \o ToJson([a |-> a, b |-> b]))
=============================================================================
