-------------------------------- MODULE IEEE --------------------------------
(* IEEE-754 binary64 numbers as values of the specification.

   A double is the pair <<hi, lo>> of its two 32-bit halves, each as a signed
   32-bit integer (TLC integers are 32 bits wide).  Pairs of recorded and of
   computed doubles therefore compare with "=" bit for bit.

   The operators below are the primitives of the specification language used
   here: they have no TLA+ body (CHOOSE over an undefined set would not help)
   but are given their meaning by IEEE-754 itself, round to nearest even, and
   evaluated by the Java class vt.Overrides.  Everything above this module is
   defined in TLA+ from these.                                              *)
EXTENDS Integers, Sequences

LOCAL Prim == CHOOSE x : x = "evaluated by vt.Overrides"

DAdd(a, b) == Prim
DSub(a, b) == Prim
DMul(a, b) == Prim
DDiv(a, b) == Prim
DNeg(a)    == Prim
DAbs(a)    == Prim
DSqrt(a)   == Prim
DLt(a, b)  == Prim        \* IEEE <  (FALSE when an operand is NaN)
DLe(a, b)  == Prim        \* IEEE <= (FALSE when an operand is NaN)
DEq(a, b)  == Prim        \* IEEE =  (so -0 = +0, NaN # NaN)
DInt(i)    == Prim        \* exact conversion of an integer
DIsNaN(a)  == Prim
DFinite(a) == Prim
DStr(a)    == Prim        \* decimal string, for messages only
DParse(s)  == Prim        \* nearest double of a decimal string, e.g. "1e-6"

DZero == DInt(0)
DOne  == DInt(1)
DMax(a, b) == IF DLt(a, b) THEN b ELSE a
DMin(a, b) == IF DLt(b, a) THEN b ELSE a
\* |a - b| <= tol
DNear(a, b, tol) == DLe(DAbs(DSub(a, b)), tol)
\* equal as numbers, or the same bits (so NaN equals itself)
DSame(a, b) == a = b \/ DEq(a, b)
=============================================================================
