------------------------------ MODULE Helpers -------------------------------
(* The vector and sparse-matrix building blocks by their definitions.  One
   case is one call: op, its arguments, what it wrote (fields o...), and
   kept = the arguments it must not write, and the memory around every array,
   were unchanged.                                                           *)
EXTENDS Csc, QP, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, bad
vars == <<c, l, bad>>
Close(a, b, scale) == DNear(a, b, DMul(Fuzz, scale))
CloseV(a, b, scale) == Len(a) = Len(b) /\ VNear(a, b, VScale(Fuzz, scale))
Base(k) == IF k.start # 0 THEN VZero(Len(k.y)) ELSE k.y
Ok(k) ==
  CASE k.op = "setup" -> k.om = k.m /\ k.on = k.n /\ k.onnz = k.nnz /\ k.same
    [] k.op = "transpose" ->
         /\ WellFormed(k.T) /\ k.T.m = k.A.n /\ k.T.n = k.A.m
         /\ Entries(k.T) = {<<e[2], e[1], e[3]>> : e \in Entries(k.A)}
         /\ WellFormed(k.TT) /\ Entries(k.TT) = Entries(k.A) /\ Sorted(k.T)
    [] k.op = "transpose pattern" ->
         /\ WellFormed(k.T) /\ Pattern(k.T) = {<<e[2], e[1]>> : e \in Pattern(k.A)} /\ Sorted(k.T)
    [] k.op = "mul" -> LET t == AsTriples(k.A) IN
         CloseV(k.o, VSub(Base(k), SpMul(t, k.x, k.A.m)), VAdd(VAbs(Base(k)), SpMulA(t, k.x, k.A.m)))
    [] k.op = "mulT" -> LET t == AsTriples(k.A) IN
         CloseV(k.o, VSub(Base(k), SpMulT(t, k.x, k.A.n)), VAdd(VAbs(Base(k)), SpMulTA(t, k.x, k.A.n)))
    [] k.op = "dense" ->
         /\ WellFormed(k.S) /\ k.S.m = k.m /\ k.S.n = k.n /\ Sorted(k.S)
         /\ k.S.cap = Len(k.S.ir)
         /\ Entries(k.S) = {<<i, j, k.D[i][j]>> : <<i, j>> \in {e \in (1..k.m) \X (1..k.n) : ~DEq(k.D[e[1]][e[2]], DZero)}}
    [] k.op = "objective" -> LET t == AsTriples(k.A) IN
         Close(k.o, DAdd(DMul(DParse("0.5"), VDot(k.x, SpMul(t, k.x, k.A.n))), VDot(k.c, k.x)),
               DAdd(VDot(VAbs(k.x), SpMulA(t, k.x, k.A.n)), VDot(VAbs(k.c), VAbs(k.x))))
    [] k.op = "norm" -> Close(k.o, VNorm(k.x), VNorm(k.x))
    [] k.op = "inner" -> Close(k.o, VDot(k.x, k.y), VDot(VAbs(k.x), VAbs(k.y)))
    [] k.op = "minmax" -> DEq(k.omin, VMin(k.x)) /\ DEq(k.omax, VMax(k.x))
    [] k.op = "axpy" -> CloseV(k.o, VAdd(k.x, VScale(k.a, k.y)), VAdd(VAbs(k.x), VAbs(VScale(k.a, k.y))))
    [] k.op = "steplength" -> Close(k.op1, Boundary(k.s, k.ds), Boundary(k.s, k.ds)) /\ Close(k.od1, Boundary(k.z, k.dz), Boundary(k.z, k.dz))
    [] k.op = "sign" -> LET v == VAdd(k.x, VScale(k.a, k.y))
                            e == VScale(Fuzz, VAdd(VAbs(k.x), VAbs(VScale(k.a, k.y))))
                            out == \E i \in 1..Len(v) : DLt(v[i], DNeg(e[i]))
                            inn == \A i \in 1..Len(v) : DLt(e[i], v[i]) \/ (DEq(k.y[i], DZero) /\ DLe(DZero, k.x[i]))
                        IN (out => k.o # 0) /\ (inn => k.o = 0)
    [] k.op = "rho" -> LET a == VAdd(k.s, VScale(k.ap, k.ds))
                           b == VAdd(k.z, VScale(k.ad, k.dz))
                           sz == VDot(k.s, k.z)
                       IN Close(k.o, DDiv(VDot(a, b), sz),
                            DDiv(VDot(VAdd(VAbs(k.s), VAbs(VScale(k.ap, k.ds))), VAdd(VAbs(k.z), VAbs(VScale(k.ad, k.dz)))), sz))
    [] k.op = "ds" -> LET l2 == VHad(k.lam, k.lam)
                          cor == IF k.sel = 1 THEN VHad(k.ds, k.dz) ELSE VZero(Len(k.lam))
                          cen == [i \in 1..Len(k.lam) |-> IF k.sel = 0 THEN DZero ELSE DMul(k.sg, k.mu)]
                      IN CloseV(k.o, VAdd(VSub(VNeg(l2), cor), cen), VAdd(VAdd(l2, VAbs(cor)), VAbs(cen)))
    [] k.op = "rhs" -> LET q == VQuo(k.ds, k.z)
                       IN CloseV(k.o, k.rx \o k.ry \o VSub(k.rz, q), VAbs(k.rx) \o VAbs(k.ry) \o VAdd(VAbs(k.rz), VAbs(q)))
    [] k.op = "lambda" -> CloseV(k.o, [i \in 1..Len(k.s) |-> DSqrt(DMul(k.s[i], k.z[i]))], [i \in 1..Len(k.s) |-> DSqrt(DMul(k.s[i], k.z[i]))])
    [] k.op = "residuals" ->
         /\ CloseV(k.orx, Rx(k.q, k.w), RxAbs(k.q, k.w))
         /\ k.q.p > 0 => CloseV(k.ory, Ry(k.q, k.w), RyAbs(k.q, k.w)) /\ Close(k.st[2], VNorm(Ry(k.q, k.w)), VNorm(RyAbs(k.q, k.w)))
         /\ CloseV(k.orz, Rz(k.q, k.w), RzAbs(k.q, k.w))
         /\ Close(k.st[1], VNorm(Rx(k.q, k.w)), VNorm(RxAbs(k.q, k.w)))
         /\ Close(k.st[3], VNorm(Rz(k.q, k.w)), VNorm(RzAbs(k.q, k.w)))
         /\ Close(k.st[4], Mu(k.q, k.w), DDiv(VDot(VAbs(k.w.s), VAbs(k.w.z)), DInt(k.q.m)))
Init == c \in 1..Len(Cases) /\ l = 0 /\ bad = {}
Judge == /\ l = 0 /\ l' = 1 /\ UNCHANGED c
         /\ LET k == Cases[c] IN
            bad' = (IF Ok(k) THEN {} ELSE {<<"C18", k.op>>}) \cup (IF k.kept THEN {} ELSE {<<"C18", k.op, "writes only its outputs">>})
Next == Judge
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
