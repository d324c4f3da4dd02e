------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* One model object and its life cycle, as pure functions.  They are the   *)
(* bodies of the actions of Lifecycle (explored exhaustively) and of Trace *)
(* (recorded behaviours of the real objects).                              *)
(*                                                                         *)
(* An object is a record:                                                  *)
(*   kind  "TL" or "IR"                                                    *)
(*   par   its parameters, in base units                                   *)
(*   dt    its timestep                                                    *)
(*   drv   its forcing series (<<NaN>> until set)                          *)
(*   A, B, R  its outputs: upper and lower temperature, or the two boxes,  *)
(*         and heat uptake; NaN where not computed                         *)
(*   st    "raw": no reset since the driver was last replaced by one of    *)
(*         another length (what stepping computes then is not specified);  *)
(*         "run": reset, k points computed since                           *)
(*   k     number of points computed since the reset                       *)
(*   clean TRUE while nothing was assigned since the reset                 *)
(*   tried TRUE if an assignment was refused since the reset (Trace only)  *)
(***************************************************************************)
EXTENDS Physics, FiniteSets

Undef(n) == [i \in 1..n |-> NaN]

Fresh(kind, par, dt) ==
    [kind |-> kind, par |-> par, dt |-> dt, drv |-> <<NaN>>, A |-> <<NaN>>, B |-> <<NaN>>,
     R |-> <<NaN>>, st |-> "raw", k |-> 0, clean |-> FALSE, tried |-> FALSE]

\* an impulse response model must have d1 < d2
OrderOK(kind, par) == kind = "IR" => FLt(par.d1, par.d2)

SetPar(o, n, v) == [o EXCEPT !.par = [@ EXCEPT ![n] = v], !.clean = FALSE]
SetDt(o, v) == [o EXCEPT !.dt = v, !.clean = FALSE]
Drive(o, s) ==
    [o EXCEPT !.drv = s, !.clean = FALSE,
              !.st = IF @ = "run" /\ Len(s) = Len(o.A) THEN "run" ELSE "raw"]

CanReset(o) == \A i \in 1..Len(o.drv) : o.drv[i] # NaN
Reset(o) ==
    LET n == Len(o.drv)
    IN [o EXCEPT !.A = Undef(n), !.B = Undef(n), !.R = Undef(n), !.st = "run", !.k = 0, !.clean = TRUE, !.tried = FALSE]

(***************************************************************************)
(* Point j of the outputs from point j - 1, by law: <<A, B, R>>            *)
(***************************************************************************)
Law(o, j) ==
    IF j = 1 THEN <<F0, F0, F0>>
    ELSE LET T == o.A[j - 1]
             D == o.B[j - 1]
             F == o.drv[j - 1]
         IN IF o.kind = "TL"
            THEN <<TLUpper(o.par, o.dt, T, D, F).v, TLLower(o.par, o.dt, T, D).v,
                   TLFlux(o.par, T, D, F)>>
            ELSE <<IRBox(o.par.q1, Decay(o.par.d1, o.dt), T, F).v,
                   IRBox(o.par.q2, Decay(o.par.d2, o.dt), D, F).v,
                   IRUptake(Equiv(o.par), T, D, F).v>>

\* stepping is possible while points remain; afterwards it raises and changes nothing
CanStep(o) == o.st = "run" /\ o.k < Len(o.A)
Step(o) ==
    LET j == o.k + 1
        x == Law(o, j)
    IN [o EXCEPT !.A = [@ EXCEPT ![j] = x[1]], !.B = [@ EXCEPT ![j] = x[2]],
                 !.R = [@ EXCEPT ![j] = x[3]], !.k = j]

RECURSIVE StepAll(_)
StepAll(o) == IF CanStep(o) THEN StepAll(Step(o)) ELSE o

\* what a new object gives for this setup and driver
Solo(kind, par, dt, drv) == StepAll(Reset(Drive(Fresh(kind, par, dt), drv)))

(***************************************************************************)
(* Completed runs: what one produced, as a function of what it was given.  *)
(***************************************************************************)
RunOf(o) == [kind |-> o.kind, par |-> o.par, dt |-> o.dt, drv |-> o.drv,
             A |-> o.A, B |-> o.B, R |-> o.R]
Complete(o) == o.st = "run" /\ o.clean /\ o.k = Len(o.A) /\ o.k = Len(o.drv)

SamePars(kind, p, q) == \A n \in ParsOf(kind) : Same(p[n], q[n])
SameSetup(r, s) == r.kind = s.kind /\ Same(r.dt, s.dt) /\ SamePars(r.kind, r.par, s.par)

\* number of leading points at which two driver series agree
Min2(a, b) == IF a < b THEN a ELSE b
Agree(s, t) ==
    LET n == Min2(Len(s), Len(t))
        differ(i) == i = n + 1 \/ ~Same(s[i], t[i])
    IN (CHOOSE i \in 1..(n + 1) : differ(i) /\ \A j \in 1..(i - 1) : ~differ(j)) - 1

\* points up to and including this one must be equal in two runs with the same setup:
\* a point depends on the forcing at strictly earlier points only
Determined(r, s) == Min2(Agree(r.drv, s.drv) + 1, Min2(Len(r.drv), Len(s.drv)))

SX == INSTANCE SequencesExt
MaxAbs(s, n) == SX!FoldLeft(LAMBDA m, x : IF Finite(x) THEN FMax(m, FAbs(x)) ELSE m, F0, SubSeq(s, 1, n))

AllFinite(s, n) == \A i \in 1..n : Finite(s[i])

RunCond(r) == IF r.kind = "TL" THEN F1 ELSE Equiv(r.par).cond

\* bounds on the difference rounding can make between two runs over n points
TempTol(r, n) == FAdd(Floor, FMul(E9, FAdd(MaxAbs(r.A, n), MaxAbs(r.B, n))))
FluxTol(r, n) ==
    LET amp == FAdd(MaxAbs(r.A, n), MaxAbs(r.B, n))
    IN IF r.kind = "TL"
       THEN FAdd4(Floor, FMul(E9, FAdd(MaxAbs(r.R, n), MaxAbs(r.drv, n))),
                  FMul(E9, FMul(amp, FAdd(FAbs(r.par.lambda0), FAbs(FMul(r.par.efficacy, r.par.eta))))),
                  FMul(E12, FDiv(FMul(amp, FAdd(HeatCap(r.par.du), HeatCap(r.par.dl))), r.dt)))
       ELSE LET g == Equiv(r.par)
            IN FAdd3(Floor, FMul(E9, FAdd(MaxAbs(r.R, n), MaxAbs(r.drv, n))),
                     FMul(FMul(E12, FAdd(FInt(1000), g.cond)),
                          FMul(amp, FAdd3(FAbs(g.lambda0), FMul(FAbs(FMul(FAdd(FAbs(g.efficacy), F1), g.eta)),
                                                     FAdd3(F1, FAbs(g.phi1), FAbs(g.phi2))),
                                          FAbs(FDiv(FMul(g.eta, g.C), g.CD))))))

NearAll(s, t, n, tol) ==
    \A i \in 1..n : IF Finite(s[i]) /\ Finite(t[i]) THEN Near(s[i], t[i], tol)
                    ELSE Finite(s[i]) = Finite(t[i]) \/ Huge \in {s[i], t[i]}

\* the runs do not contradict "outputs are a function of setup and earlier forcing"
Consistent(r, s) ==
    SameSetup(r, s) =>
      LET n == Determined(r, s)
      IN /\ NearAll(r.A, s.A, n, TempTol(r, n))
         /\ NearAll(r.B, s.B, n, TempTol(r, n))
         /\ NearAll(r.R, s.R, n, FluxTol(r, n))
=============================================================================
