------------------------------ MODULE SmallQP -------------------------------
(* Every small integer QP of a given shape with a known optimum, enumerated.

   A state is one problem  min 1/2 x'Px + c'x, Gx <= h, Ax = b  built backwards
   from an exact KKT point (X, y, z, s): c = -(PX + G'z + A'y), h = GX + s,
   b = AX.  Invariants confirm on a grid that X really is a global optimum and
   that the value is unique.  The problems that are well posed (strictly
   feasible, with a strictly feasible dual, both witnessed on the grid, and A
   of full row rank) are written to IOEnv.OUT and solved by the real code.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Num(s) == CHOOSE i \in 0..999 : ToString(i) = s
N  == Num(IOEnv.NN)          \* variables (1 or 2)
M  == Num(IOEnv.MM)          \* inequalities
EQ == Num(IOEnv.PP)          \* equalities (0 or 1)
THIN == Num(IOEnv.THIN)      \* keep one problem in THIN
SEED == Num(IOEnv.SEED)
ALL  == IOEnv.ALL = "1"     \* model check all states, or only those kept

Ps == IF N = 1 THEN {<<<<a>>>> : a \in 0..2}
      ELSE { <<<<0,0>>,<<0,0>>>>, <<<<1,0>>,<<0,1>>>>, <<<<1,0>>,<<0,0>>>>, <<<<0,0>>,<<0,2>>>>,
             <<<<1,1>>,<<1,1>>>>, <<<<2,1>>,<<1,2>>>>, <<<<2,-1>>,<<-1,1>>>> }
Row == [1..N -> -1..1]
Pair == { <<0,1>>, <<0,0>>, <<1,0>> }            \* (slack, multiplier), complementary
X0 == IF N = 1 THEN <<1>> ELSE <<1, -1>>
Dot(a, b) == IF N = 1 THEN a[1]*b[1] ELSE a[1]*b[1] + a[2]*b[2]
Col(G, z, j) == LET f[i \in 0..Len(z)] == IF i = 0 THEN 0 ELSE f[i-1] + G[i][j] * z[i] IN f[Len(z)]
Asets == IF EQ = 0 THEN {<<>>} ELSE {<<a>> : a \in [1..N -> -1..1]}

VARIABLES P, G, A, sz, y, c, h, b      \* c, h, b follow from the others
vars == <<P, G, A, sz, y, c, h, b>>
z == [i \in 1..M |-> sz[i][2]]
s == [i \in 1..M |-> sz[i][1]]
PX(x) == [j \in 1..N |-> Dot(P[j], x)]
C0 == [j \in 1..N |-> -(PX(X0)[j] + Col(G, z, j) + Col(A, y, j))]
H0 == [i \in 1..M |-> Dot(G[i], X0) + s[i]]
B0 == [i \in 1..EQ |-> Dot(A[i], X0)]

Grid == [1..N -> -4..4]
Cost2(x) == Dot(x, PX(x)) + 2 * Dot(c, x)                \* twice the cost
Feasible(x) == (\A i \in 1..M : Dot(G[i], x) <= h[i]) /\ (\A i \in 1..EQ : Dot(A[i], x) = b[i])
Strictly(x) == (\A i \in 1..M : Dot(G[i], x) < h[i]) /\ (\A i \in 1..EQ : Dot(A[i], x) = b[i])
DualStrict == \E x \in [1..N -> -2..2], u \in [1..M -> 1..3], v \in [1..EQ -> -2..2] :
                 \A j \in 1..N : Dot(P[j], x) + Col(G, u, j) + Col(A, v, j) + c[j] = 0
FullRank == \A i \in 1..EQ : \E j \in 1..N : A[i][j] # 0
WellPosed == FullRank /\ (\E x \in Grid : Strictly(x)) /\ DualStrict
\* the optimum is unique if no other grid point attains it (integer data of this size)
Unique == \A x \in Grid : Feasible(x) /\ Cost2(x) = Cost2(X0) => x = X0
Det == IF N = 1 THEN P[1][1] ELSE P[1][1]*P[2][2] - P[1][2]*P[2][1]

Code(i) == 9 * (3 * G[i][1] + G[i][N]) + 3 * sz[i][1] + sz[i][2]
Hash == LET f[i \in 0..M] == IF i = 0 THEN 0 ELSE 17 * f[i-1] + 40 + Code(i)
            g[j \in 0..N] == IF j = 0 THEN f[M] ELSE 11 * g[j-1] + 40 + c[j]
        IN g[N] + SEED
Init == /\ P \in Ps /\ G \in [1..M -> Row] /\ A \in Asets /\ sz \in [1..M -> Pair]
        /\ y \in [1..EQ -> {-1, 1}]
        /\ c = C0 /\ h = H0 /\ b = B0
        /\ \A i \in 1..M-1 : Code(i) <= Code(i+1)      \* up to reordering of the inequalities
        /\ ALL \/ Hash % THIN = 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ---- the optimum is right --------------------------------------------------
OptimumFeasible == Feasible(X0)
OptimumIsGlobal == \A x \in Grid : Feasible(x) => Cost2(X0) <= Cost2(x)
Complementary == \A i \in 1..M : s[i] * z[i] = 0

\* ---- emission ---------------------------------------------------------------
Emit == (Hash % THIN = 0 /\ WellPosed) =>
   PrintT("CASE " \o ToJson([P |-> P, G |-> G, A |-> A, c |-> c, h |-> h, b |-> b, x |-> X0, y |-> y, z |-> z, s |-> s,
                   unique |-> Unique, strong |-> Det # 0]))
=============================================================================
