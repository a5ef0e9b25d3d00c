---------------------------- MODULE SessionTrace ----------------------------
(* The life of one solver object, through setup, changes of options and data
   in place, and any number of solves, as recorded from the real one.

   State: the problem now (q), the options now (o), the iterate (w), the
   iteration count.  Events:
     setup  w, opt, iter, given = sigma_d passed (<<>> if the call has none)
     opt    the new options            data   the new c, h, b
     solve  limit, code, flag, iter, w, stats; steps = the iterates a twin object
            with the same past visits one iteration at a time (never stopping);
            out = what was printed, line by line
   WANT selects C15 or C19.                                                 *)
EXTENDS QP, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
WANT == IOEnv.WANT
VARIABLES c, l, q, o, w, iter, bad
vars == <<c, l, q, o, w, iter, bad>>
Case == Cases[c]
Evs == Case.evs
Clause(prop, name, val) == IF WANT # prop THEN {} ELSE IF val THEN {} ELSE {<<prop, name>>}
SameW(a, b) == VSame(a.x, b.x) /\ VSame(a.y, b.y) /\ VSame(a.z, b.z) /\ VSame(a.s, b.s)

Defaults(e) ==
  Clause("C15", "default settings",
    /\ e.opt.maxit = 100 /\ e.opt.verbose = 0
    /\ DEq(e.opt.reltol, DParse("1e-6")) /\ DEq(e.opt.abstol, DParse("1e-6")) /\ DEq(e.opt.sigma, DInt(100))
    /\ DEq(e.opt.sigmad, IF e.given = <<>> THEN DZero ELSE e.given[1]))

(* ------------------------------------------ one solve -- *)
\* iterates tested: u[1] is the present one, u[j+1] after j iterations
Iterates(e) == <<w>> \o [j \in 1..Len(e.steps) |-> e.steps[j].w]
Made(e) == e.iter - iter
Outcome(e) ==
  LET u == Iterates(e)
      r == Made(e)
      k == Len(e.steps)
      P(name, val) == Clause("C19", name, val) \cup Clause("C15", name, val)
  IN P("iterations made are counted and within the limit", r >= 0 /\ r <= e.limit)
     \cup P("the iterates of the uninterrupted run", r = k /\ SameW(e.w, u[k+1]))
     \cup P("sigma as in the uninterrupted run", k > 0 => DSame(e.sg, e.steps[k].sg))
     \cup P("the code is that of this solve", e.code \in {0, 2} /\ e.flag = e.code)
     \cup P("Optimal only at a converged iterate", e.code = 0 => ConvMay(q, e.w, o) /\ r < e.limit)
     \cup P("Maximum-Iterations only at the limit", e.code = 2 => r = e.limit)
     \cup P("stops at the first converged iterate", \A j \in 1..k : ~ConvMust(q, u[j], o))
     \cup P("a converged iterate is Optimal at once", e.limit > 0 /\ ConvMust(q, w, o) => e.code = 0 /\ r = 0 /\ SameW(e.w, w))
     \cup P("statistics of the present data", e.code = 0 =>
            /\ NearBy(e.fval, Cost(q, e.w), CostAbs(q, e.w))
            /\ DNear(e.nrx, VNorm(Rx(q, e.w)), DMul(Fuzz, DAdd(VNorm(RxAbs(q, e.w)), e.nrx)))
            /\ DNear(e.nrz, VNorm(Rz(q, e.w)), DMul(Fuzz, DAdd(VNorm(RzAbs(q, e.w)), e.nrz)))
            /\ q.p > 0 => DNear(e.nry, VNorm(Ry(q, e.w)), DMul(Fuzz, DAdd(VNorm(RyAbs(q, e.w)), e.nry)))
            /\ NearBy(e.nmu, Mu(q, e.w), Mu(q, e.w)))

(* ------------------------------------------ what was printed -- *)
\* six decimals in exponent notation; six decimals after the point
ShowsE(x, v, scale) == DNear(x, v, DAdd(DMul(DParse("6e-7"), DAbs(v)), DMul(Fuzz, scale))) \/ (~DFinite(v) /\ ~DFinite(x))
ShowsF(x, v) == DNear(x, v, DParse("6e-7")) \/ (~DFinite(v) /\ ~DFinite(x))
LineOk(t, u, n) ==       \* an iteration line for iterate u, the n-th
  /\ t.it = n
  /\ ShowsE(t.cost, Cost(q, u), CostAbs(q, u))
  /\ ShowsE(t.rx, VNorm(Rx(q, u)), VNorm(RxAbs(q, u)))
  /\ q.p > 0 => ShowsE(t.ry, VNorm(Ry(q, u)), VNorm(RyAbs(q, u)))
  /\ q.p = 0 => DEq(t.ry, DZero)
  /\ ShowsE(t.rz, VNorm(Rz(q, u)), VNorm(RzAbs(q, u)))
  /\ ShowsE(t.mu, Mu(q, u), Mu(q, u))
Printed(e) ==
  LET u == Iterates(e)
      k == Len(e.steps)
      L == e.lines
      its == [i \in 1..Len(L.its) |-> L.its[i]]
      lines == IF e.code = 0 THEN k + 1 ELSE k
  IN IF o.verbose <= 0 THEN Clause("C15", "VERBOSE 0 prints nothing", L.bytes = 0)
     ELSE Clause("C15", "one line per tested iterate", Len(its) = lines)
          \cup Clause("C15", "iteration lines", Len(its) = lines => \A i \in 1..lines : LineOk(its[i], u[i], iter + i - 1))
          \cup Clause("C15", "one line per step", Len(L.steps) = k)
          \cup Clause("C15", "step length lines", Len(L.steps) = k => \A i \in 1..k : ShowsF(L.steps[i].ap, e.steps[i].ap) /\ ShowsF(L.steps[i].ad, e.steps[i].ad))
          \cup Clause("C15", "order of the lines", L.order = [i \in 1..(lines + k) |-> IF i % 2 = 1 THEN "it" ELSE "step"] \o <<"status">>)
          \cup Clause("C15", "final status", L.status = <<IF e.code = 0 THEN "Optimal" ELSE "Maximum-Iterations">> /\ L.count = <<e.iter>>)

Init == c \in 1..Len(Cases) /\ l = 0 /\ q = <<>> /\ o = <<>> /\ w = <<>> /\ iter = 0 /\ bad = {}
Next ==
  /\ l < Len(Evs) /\ l' = l + 1 /\ UNCHANGED c
  /\ LET e == Evs[l+1] IN
     CASE e.op = "setup" -> /\ q' = Case.prob /\ o' = e.opt /\ w' = e.w /\ iter' = e.iter
                            /\ bad' = Defaults(e) \cup Clause("C19", "no iterations yet", e.iter = 0)
                                 \cup Clause("C15", "setup prints nothing", e.bytes = 0)
       [] e.op = "opt"   -> /\ o' = e.opt /\ bad' = {} /\ UNCHANGED <<q, w, iter>>
       [] e.op = "data"  -> /\ q' = [q EXCEPT !.c = e.c, !.h = e.h, !.b = e.b] /\ bad' = {} /\ UNCHANGED <<o, w, iter>>
       [] e.op = "solve" -> /\ w' = e.w /\ iter' = e.iter /\ UNCHANGED <<q, o>>
                            /\ bad' = Outcome(e) \cup Printed(e)
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
