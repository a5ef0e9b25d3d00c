------------------------------ MODULE MexArgs -------------------------------
(* The calls of the MATLAB gateway
     [sol, basic, adv] = qpSWIFT(P, c, G, h [, opts])
     [sol, basic, adv] = qpSWIFT(P, c, A, b, G, h [, opts])
   and which of them are well formed.  An array is
     [cls |-> class, sparse |-> .., cplx |-> .., dims |-> shape (two or more)];
   opts is "struct", "other" (sets nothing) or "void" (a structure array without
   elements, sets nothing); an option value is [t |-> "absent" | "real" | "bad",
   neg, nan, le200, le1] and Permut a record of an array plus valid.         *)
EXTENDS Integers, Sequences, FiniteSets
Max2(a) == IF a.dims[1] > a.dims[2] THEN a.dims[1] ELSE a.dims[2]
Min2(a) == IF a.dims[1] > a.dims[2] THEN a.dims[2] ELSE a.dims[1]
RealSparse(a) == a.cls = "double" /\ a.sparse /\ ~a.cplx
RealDense(a) == a.cls = "double" /\ ~a.sparse /\ ~a.cplx
Vector(a) == Len(a.dims) = 2 /\ Min2(a) = 1
Eq(call) == call.nrhs \in {6, 7}
HasOpts(call) == call.nrhs \in {5, 7} /\ call.opts = "struct"
n(call) == Max2(call.c)
m(call) == Max2(call.h)
p(call) == IF Eq(call) THEN Max2(call.b) ELSE 0
Counted(call) == call.nrhs \in 4..7 /\ call.nlhs \in 1..3
IfSo(bool, msg) == IF bool THEN {msg} ELSE {}
Options == {"MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE"}
OptMsg == [MAXITER |-> "Iteration Number must be within 0 and 200", ABSTOL |-> "Absolute Tolerance must be within 0 and 1",
           RELTOL |-> "Relative Tolerance must be within 0 and 1", SIGMA |-> "Sigma must be positive", VERBOSE |-> "Verbose must be positive"]
OptOk(o, x) == x.t = "real" /\ ~x.nan /\ ~x.neg /\ (o = "MAXITER" => x.le200) /\ (o \in {"ABSTOL", "RELTOL"} => x.le1)
OptFaults(call) == IF ~HasOpts(call) THEN {} ELSE {OptMsg[o] : o \in {o \in Options : call[o].t # "absent" /\ ~OptOk(o, call[o])}}
PermFaults(call) ==
  IF ~HasOpts(call) \/ call.PERMUT.cls = "absent" THEN {}
  ELSE IfSo(~RealDense(call.PERMUT), "Permut should be a real dense vector")
       \cup IfSo(~Vector(call.PERMUT), "Permut should be a column vector")
       \cup IfSo(Max2(call.PERMUT) # n(call) + m(call) + p(call), "The dimensions of Permutation vector are inconsistent")
       \cup IfSo(~call.PERMUT.valid, "Not a Valid Permutation Vector")
ArrayFaults(call) ==
  IfSo(~RealSparse(call.P), "P should be a real sparse matrix")
  \cup IfSo(call.P.dims[1] # call.P.dims[2], "P should be a square matrix")
  \cup IfSo(call.P.dims[1] # n(call), "Dimensions of P and c do not match")
  \cup IfSo(~RealSparse(call.G), "G should be a real sparse matrix")
  \cup IfSo(call.G.dims[1] # m(call), "Dimensions of G and h do not match")
  \cup IfSo(call.G.dims[2] # n(call), "Dimensions of G and c do not match")
  \cup IfSo(~RealDense(call.c), "c should be a real dense vector")
  \cup IfSo(~Vector(call.c), "c should be a column vector")
  \cup IfSo(~RealDense(call.h), "h should be a real dense vector")
  \cup IfSo(~Vector(call.h), "h should be a column vector")
  \cup (IF ~Eq(call) THEN {} ELSE
        IfSo(~RealSparse(call.A), "A should be a real sparse matrix")
        \cup IfSo(call.A.dims[1] # p(call), "Dimensions of A and b do not match")
        \cup IfSo(call.A.dims[2] # n(call), "Dimensions of A and c do not match")
        \cup IfSo(~RealDense(call.b), "b should be a real dense vector")
        \cup IfSo(~Vector(call.b), "b should be a column vector"))
CountFaults(call) == IfSo(~(call.nrhs \in 4..7), "Please enter the correct number of input arguments") \cup IfSo(~(call.nlhs \in 1..3), "The number of outputs is restricted to 3")
Faults(call) == IF ~Counted(call) THEN CountFaults(call) ELSE ArrayFaults(call) \cup OptFaults(call) \cup PermFaults(call)
Help(call) == call.nlhs = 0
Accepted(call) == ~Help(call) /\ Faults(call) = {}
BasicFields == {"Iterations", "ExitFlag", "Setup_Time", "Solve_Time"}
AdvFields == {"Fval", "KKT_Time", "LDL_Time", "y", "z", "s"}
=============================================================================
