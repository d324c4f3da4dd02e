------------------------------- MODULE Theory -------------------------------
(***************************************************************************)
(* The two models side by side: the exact solution of the two-layer        *)
(* equations, the explicit scheme for them, and the impulse response model *)
(* made from the same parameters, all driven by one forcing series chosen  *)
(* step by step.  Runs for two forcings f and g and for their combination  *)
(* al f + be g are carried along, for linearity.                           *)
(***************************************************************************)
EXTENDS Physics, TLC

CONSTANTS Pars,      \* two-layer parameter sets with a = 0
          Dts,       \* timesteps
          Forcings,  \* values the forcing may take
          Steps,     \* number of steps
          Constant   \* TRUE: the forcing keeps its first value

VARIABLES p, dt, r, w,          \* parameters of both models; what is the same in all steps
          ex, eu, ir, irc, n,   \* states: exact, Euler, boxes (forcing f), boxes (combination)
          f,                    \* forcing of the last step
          ig,                   \* boxes driven by g (f of the step before)
          up                    \* heat uptake: exact, impulse response, explicit

tvars == <<p, dt, r, w, ex, eu, ir, irc, n, f, ig, up>>

Al == FInt(3)
Be == FRat(-1, 2)
Z == <<F0, F0>>

Box(d, x, F) == <<IRBox(r.q1, d.e1, x[1], F).v, IRBox(r.q2, d.e2, x[2], F).v>>

Init ==
    /\ p \in Pars /\ dt \in Dts
    /\ r = AsIR(p)
    /\ w = [E |-> ExactStep(p, dt), e1 |-> Decay(r.d1, dt), e2 |-> Decay(r.d2, dt), g |-> Equiv(r)]
    /\ ex = Z /\ eu = Z /\ ir = Z /\ irc = Z /\ ig = Z
    /\ n = 0 /\ f = F0 /\ up = <<F0, F0, F0>>

Next ==
    /\ n < Steps
    /\ \E F \in Forcings :
       /\ Constant /\ n > 0 => F = f
       /\ f' = F
       /\ ex' = ExactNext(p, w.E, ex[1], ex[2], F)
       /\ eu' = <<TLUpper(p, dt, eu[1], eu[2], F).v, TLLower(p, dt, eu[1], eu[2]).v>>
       /\ ir' = Box(w, ir, F)
       /\ ig' = Box(w, ig, f)
       /\ irc' = Box(w, irc, FAdd(FMul(Al, F), FMul(Be, f)))
       /\ up' = <<TLFlux(p, ex[1], ex[2], F), IRUptake(w.g, ir[1], ir[2], F).v, TLFlux(p, eu[1], eu[2], F)>>
    /\ n' = n + 1
    /\ UNCHANGED <<p, dt, r, w>>

Spec == Init /\ [][Next]_tvars

-----------------------------------------------------------------------------
T24 == FTiny(6)

\* the defining relations hold for the converted parameters, both ways
ConversionRight ==
    n = 0 =>
    /\ \A i \in 1..5 : LET q == Relations(p, r)[i] IN Near(q[1], q[2], FMul(T24, FMax(F1, FAbs(q[1]))))
    /\ LET b == AsTL(w.g) IN \A x \in TLPars : SameRel(b[x], p[x], T24)
    /\ \A x \in IRPars : FLt(F0, r[x])
    /\ FLt(r.d1, r.d2)
    /\ LET b == AsIR(AsTL(w.g)) IN \A x \in IRPars : SameRel(b[x], r[x], T24)

\* the impulse response model is the exact solution
Equivalent ==
    /\ Near(FAdd(ir[1], ir[2]), ex[1], T24)
    /\ Near(FAdd(FMul(w.g.phi1, ir[1]), FMul(w.g.phi2, ir[2])), ex[2], T24)
    /\ Near(up[1], up[2], T24)

\* responses are linear
Linear == \A i \in 1..2 : Near(FAdd(FMul(Al, ir[i]), FMul(Be, ig[i])), irc[i], T24)

\* constant forcing: monotone, bounded by the equilibrium, lower layer behind the upper one
Eq == FDiv(f, p.lambda0)
Sgn1(x) == IF FLe(F0, f) THEN x ELSE FNeg(x)
Bounded ==
    Constant /\ n > 0 =>
      \A s \in {ex, eu} :
        /\ FLe(Sgn1(s[1]), FAdd(Sgn1(Eq), T24)) /\ FLe(FNeg(T24), Sgn1(s[2]))
        /\ FLe(Sgn1(s[2]), FAdd(Sgn1(s[1]), T24))
Monotone ==
    [][Constant /\ n > 0 =>
        /\ FLe(Sgn1(ex[1]), FAdd(Sgn1(ex'[1]), T24))
        /\ FLe(Sgn1(eu[1]), FAdd(Sgn1(eu'[1]), T24))]_tvars
\* energy balance of the explicit scheme, step by step
Budget ==
    [][Near(FMul(up'[3], dt), FSub(Stored(p, eu'[1], eu'[2]), Stored(p, eu[1], eu[2])), FTiny(5))]_tvars
Settles ==
    Constant /\ n = Steps /\ FLe(FInt(40), FMul(FInt(n), w.E.r2)) =>
        /\ Near(ex[1], Eq, FTiny(3)) /\ Near(eu[1], Eq, FTiny(3))
        /\ Near(up[2], F0, FTiny(3)) /\ Near(up[3], F0, FTiny(3))
        \* the sensitivity of -lambda0 is the warming under constant forcing
        /\ Near(ex[1], FNeg(FDiv(f, FNeg(p.lambda0))), FTiny(3))
=============================================================================
