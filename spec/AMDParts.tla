------------------------------ MODULE AMDParts ------------------------------
(* The other parts of the ordering package, each call a state.
     valid       rows, cols, Ap, Ai, null      ret
     preprocess  n, Ap, Ai                     Rp, Ri  (R = A', sorted, no duplicates)
     postorder   parent, nv, fsize             order
     defaults    given                         control
     info        given, info (whole numbers), sym; status word and numbers printed
     control     given, dense, aggressive      words and numbers printed
   kept: nothing outside the results was written.  Indices are 0-based.     *)
EXTENDS IEEE, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, bad
vars == <<c, l, bad>>
Case == Cases[c]
Clause(name, val) == IF val THEN {} ELSE {<<"C16", name>>}
Ap(j) == Case.Ap[j+1]
Ai(k) == Case.Ai[k]
Col(j) == Ap(j)+1 .. Ap(j+1)

(* ------------------------------------------------------- valid -- *)
Starts == Ap(0) = 0 /\ Ap(Case.cols) >= 0 /\ \A j \in 0..Case.cols-1 : Ap(j) <= Ap(j+1)
Rows == \A j \in 0..Case.cols-1 : \A k \in Col(j) : Ai(k) >= 0 /\ Ai(k) < Case.rows
Sorted == \A j \in 0..Case.cols-1 : \A k \in Col(j) : k > Ap(j)+1 => Ai(k-1) < Ai(k)
Valid == Clause("validity", Case.ret = IF Case.rows < 0 \/ Case.cols < 0 \/ Case.null # "" \/ ~Starts \/ ~Rows THEN -2 ELSE IF Sorted THEN 0 ELSE 1)

(* -------------------------------------------------- preprocess -- *)
RowSet(i) == {j \in 0..Case.n-1 : \E k \in Col(j) : Ai(k) = i}
RCol(i) == Case.Rp[i+1]+1 .. Case.Rp[i+2]
Preprocess ==
  LET okp == Case.Rp[1] = 0 /\ \A i \in 0..Case.n-1 : Case.Rp[i+2] - Case.Rp[i+1] = Cardinality(RowSet(i))
  IN Clause("transposed: column pointers", okp)
     \cup (IF ~okp THEN {} ELSE
           Clause("transposed: rows", \A i \in 0..Case.n-1 : {Case.Ri[k] : k \in RCol(i)} = RowSet(i))
           \cup Clause("transposed: sorted", \A i \in 0..Case.n-1 : \A k \in RCol(i) : k > Case.Rp[i+1]+1 => Case.Ri[k-1] < Case.Ri[k]))

(* --------------------------------------------------- postorder -- *)
\* nodes with nv > 0 form the forest; parent -1 is none
Nodes == {v \in 1..Len(Case.parent) : Case.nv[v] > 0}
Ord(v) == Case.order[v]
RECURSIVE Under(_)
Under(v) == {v} \cup UNION {Under(u) : u \in {u \in Nodes : Case.parent[u] = v - 1}}
Kids(v) == {u \in Nodes : Case.parent[u] = v - 1}
Postorder ==
  LET S == TLCEval([v \in Nodes |-> Under(v)])
  IN Clause("postorder: numbers every node once", {Ord(v) : v \in Nodes} = 0..Cardinality(Nodes)-1)
     \cup Clause("postorder: a subtree is contiguous and ends with its root", \A v \in Nodes : {Ord(u) : u \in S[v]} = (Ord(v) - Cardinality(S[v]) + 1)..Ord(v))
     \cup Clause("postorder: the largest child last", \A v \in Nodes : Kids(v) # {} =>
            \E u \in Kids(v) : Ord(u) = Ord(v) - 1 /\ \A q \in Kids(v) : Case.fsize[q] <= Case.fsize[u])

(* ---------------------------------------------------- printing -- *)
Defaults == Clause("default parameters", Case.given => Case.control = <<DInt(10), DInt(1), DZero, DZero, DZero>>)
\* the numbers after the colons, as doubles
Num(i) == Case.nums[i]
I(k) == Case.info[k+1]
Shown(s) == SelectSeq(s, LAMBDA x : DLe(DZero, x))
Want == LET n == I(1) ndiv == I(10) ldl == I(11) lu == I(12) lnz == I(9)
            lnzd == IF DLe(DZero, n) /\ DLe(DZero, lnz) THEN DAdd(n, lnz) ELSE DInt(-1)
            two(x) == DMul(DInt(2), x)
            flops == IF \A x \in {n, ndiv, ldl, lu} : DLe(DZero, x)
                     THEN <<DAdd(DAdd(n, ndiv), two(ldl)), DAdd(ndiv, two(ldl)), DAdd(DMul(DInt(9), ndiv), DMul(DInt(8), ldl)),
                            DAdd(ndiv, two(lu)), DAdd(DMul(DInt(9), ndiv), DMul(DInt(8), lu))>> ELSE <<>>
        IN Shown(<<n, I(2), I(3), I(4), I(5), I(6), I(7), I(8), lnz, lnzd, ndiv, ldl, lu, I(13)>>) \o flops
Word(s) == IF DEq(s, DZero) THEN "OK" ELSE IF DEq(s, DInt(-1)) THEN "out of memory" ELSE IF DEq(s, DInt(-2)) THEN "invalid matrix" ELSE IF DEq(s, DOne) THEN "OK, but jumbled" ELSE "unknown"
Info == IF ~Case.given THEN Clause("report without statistics", Case.nums = <<>> /\ Case.words = <<>>)
        ELSE Clause("reported status", Case.words = <<Word(I(0))>>)
             \cup Clause("reported statistics", Len(Case.nums) = Len(Want) /\ \A i \in 1..Len(Want) : DNear(Num(i), Want[i], DMul(DParse("0.00006"), DOne)))
Control == LET dense == IF Case.given THEN Case.dense ELSE DInt(10) aggr == IF Case.given THEN Case.aggressive ELSE TRUE
  IN Clause("reported dense row parameter", Len(Case.nums) >= 1 /\ DNear(Num(1), dense, DMul(DParse("1e-5"), DAbs(dense))))
     \cup Clause("reported treatment of dense rows", Case.words = <<IF DLt(dense, DZero) THEN "none" ELSE "some", IF aggr THEN "yes" ELSE "no">>)

Judge == Clause("writes only its results", Case.kept)
  \cup CASE Case.do = "valid" -> Valid [] Case.do = "preprocess" -> Preprocess [] Case.do = "postorder" -> Postorder
         [] Case.do = "defaults" -> Defaults [] Case.do = "info" -> Info [] OTHER -> Control
Init == c \in 1..Len(Cases) /\ l = 0 /\ bad = {}
Next == l = 0 /\ l' = 1 /\ bad' = Judge /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
