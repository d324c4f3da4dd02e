------------------------------ MODULE Physics ------------------------------
(***************************************************************************)
(* The laws the two models obey, on exact fixed-point numbers in base      *)
(* units.  A law that is compared with a floating-point result comes as a  *)
(* record [v |-> value, tol |-> bound on the rounding error of computing   *)
(* it in double precision from the same operands].                         *)
(*                                                                         *)
(* Parameters are records: two-layer ("TL") du, dl, lambda0, a, efficacy,  *)
(* eta; impulse response ("IR") q1, q2, d1, d2, efficacy.                  *)
(***************************************************************************)
EXTENDS Units

WaterHeat == FInt(4181000)          \* 1000 kg/m^3 * 4181 J/K/kg

E12 == FTiny(3)
E8  == FTiny(2)
E11 == FMul(FInt(10), E12)
E9  == FMul(FRat(1, 10), E8)
E10 == FMul(FRat(1, 100), E8)
E13 == FMul(FRat(1, 10), E12)
E14 == FMul(FRat(1, 100), E12)
Floor == FTiny(8)                   \* 10^-32: below this everything is zero

FAdd3(a, b, c) == FAdd(a, FAdd(b, c))
FAdd4(a, b, c, d) == FAdd(FAdd(a, b), FAdd(c, d))

\* the same number (or the same special value) up to a relative error
SameRel(x, y, eps) ==
    IF Finite(x) /\ Finite(y)
    THEN x = y \/ Near(x, y, FAdd(Floor, FMul(eps, FMax(FAbs(x), FAbs(y)))))
    ELSE x = y
Same(x, y) == SameRel(x, y, E12)
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Same(s[i], t[i])

TLPars == {"du", "dl", "lambda0", "a", "efficacy", "eta"}
IRPars == {"q1", "q2", "d1", "d2", "efficacy"}
ParsOf(kind) == IF kind = "TL" THEN TLPars ELSE IRPars

ParDim == [du |-> "len", dl |-> "len", lambda0 |-> "fb", a |-> "fb2", efficacy |-> "one",
           eta |-> "fb", q1 |-> "sens", q2 |-> "sens", d1 |-> "time", d2 |-> "time",
           delta_t |-> "time", erf |-> "flux"]

\* parameters for which the model has a meaning: an impulse response model needs an
\* equivalent two-layer model
Physical(kind, p) ==
    kind = "IR" => /\ \A n \in IRPars : Finite(p[n]) /\ FLt(F0, p[n])
                   /\ FLt(p.d1, p.d2) /\ ~SameRel(p.d1, p.d2, E8)

HeatCap(depth) == FMul(depth, WaterHeat)

(***************************************************************************)
(* The two-layer model: one explicit Euler step.                           *)
(*   C   dT/dt   = F - (lambda0 - a T) T - efficacy eta (T - T_D)          *)
(*   C_D dT_D/dt = eta (T - T_D)                                           *)
(***************************************************************************)
TLUpper(p, dt, T, TD, F) ==
    LET C  == HeatCap(p.du)
        fb == FMul(FSub(p.lambda0, FMul(p.a, T)), T)
        ee == FMul(p.efficacy, p.eta)
        ex == FMul(ee, FSub(T, TD))
        X  == FSub(FSub(F, fb), ex)
        S  == FAdd4(FAbs(F), FAbs(FMul(p.lambda0, T)), FAbs(FMul(p.a, FMul(T, T))),
                    FMul(FAbs(ee), FAdd(FAbs(T), FAbs(TD))))
    IN [v   |-> FAdd(T, FDiv(FMul(dt, X), C)),
        tol |-> FAdd(Floor, FMul(E12, FAdd(FAbs(T), FAbs(FDiv(FMul(dt, S), C)))))]

TLLower(p, dt, T, TD) ==
    LET CD == HeatCap(p.dl)
        k  == FDiv(FMul(dt, p.eta), CD)
    IN [v   |-> FAdd(TD, FMul(k, FSub(T, TD))),
        tol |-> FAdd(Floor, FMul(E12, FAdd(FAbs(TD), FMul(FAbs(k), FAdd(FAbs(T), FAbs(TD))))))]

\* net downward flux with temperatures T, TD and forcing F
TLFlux(p, T, TD, F) ==
    LET fb == FMul(FSub(p.lambda0, FMul(p.a, T)), T)
        ef == FMul(FMul(FSub(p.efficacy, F1), p.eta), FSub(T, TD))
    IN FSub(FSub(F, fb), ef)
TLFluxScale(p, T, TD, F) ==
    FAdd4(FAbs(F), FAbs(FMul(p.lambda0, T)), FAbs(FMul(p.a, FMul(T, T))),
          FMul(FAbs(FMul(FAdd(FAbs(p.efficacy), F1), p.eta)), FAdd(FAbs(T), FAbs(TD))))

\* heat uptake of the step from (T, TD) to (T2, TD2): flux law, with the error
\* of the division of the stored heat by the timestep
TLUptake(p, dt, T, TD, F, T2, TD2) ==
    [v   |-> TLFlux(p, T, TD, F),
     tol |-> FAdd3(Floor, FMul(E12, TLFluxScale(p, T, TD, F)),
                   FMul(E13, FAbs(FDiv(FAdd(FMul(FAbs(HeatCap(p.du)), FAdd(FAbs(T), FAbs(T2))),
                                            FMul(FAbs(HeatCap(p.dl)), FAdd(FAbs(TD), FAbs(TD2)))), dt))))]

\* heat stored in the two layers
Stored(p, T, TD) == FAdd(FMul(HeatCap(p.du), T), FMul(HeatCap(p.dl), TD))

(***************************************************************************)
(* The impulse response model: one step of one box.                        *)
(***************************************************************************)
Decay(d, dt) == FExp(FNeg(FDiv(dt, d)))
IRBox(q, e, T, F) ==                \* e is Decay(d, dt)
    LET r == FMul(q, F)
    IN [v   |-> FAdd(FMul(T, e), FMul(r, FSub(F1, e))),
        tol |-> FAdd(Floor, FMul(E12, FAdd(FAbs(T), FAbs(r))))]

(***************************************************************************)
(* The two-layer model equivalent to an impulse response model: lambda0,   *)
(* heat capacities C and CD, eta; phi_i is the lower-layer temperature per *)
(* unit of box i (energy balance of the i-th mode).                        *)
(***************************************************************************)
Equiv(p) ==
    LET lam == FDiv(F1, FAdd(p.q1, p.q2))
        C   == FDiv(FMul(p.d1, p.d2), FAdd(FMul(p.q1, p.d2), FMul(p.q2, p.d1)))
        a1  == FMul(lam, p.q1)
        a2  == FMul(lam, p.q2)
        top == FMul(lam, FAdd(FMul(p.d1, a1), FMul(p.d2, a2)))
        CD  == FDiv(FSub(top, C), p.efficacy)
        eta == FDiv(CD, FAdd(FMul(p.d1, a2), FMul(p.d2, a1)))
        phi(d) == FDiv(FSub(FMul(lam, d), C), FMul(p.efficacy, CD))
    IN [lambda0 |-> lam, C |-> C, CD |-> CD, eta |-> eta, efficacy |-> p.efficacy,
        phi1 |-> phi(p.d1), phi2 |-> phi(p.d2),
        cond |-> FAdd(F1, FAbs(FDiv(FAdd(FAbs(top), FAbs(C)), FMul(p.efficacy, CD))))]

\* heat uptake of the impulse response model; g is Equiv(p)
IRUptake(g, T1, T2, F) ==
    LET eff == FSub(g.efficacy, F1)
        low == FAdd(FMul(FSub(F1, g.phi1), T1), FMul(FSub(F1, g.phi2), T2))
        m   == FAdd(FAbs(T1), FAbs(T2))
        ee  == FAbs(FMul(eff, g.eta))
    IN [v   |-> FSub(FSub(F, FMul(g.lambda0, FAdd(T1, T2))), FMul(eff, FMul(g.eta, low))),
        tol |-> FAdd3(Floor,
                 FMul(E12, FAdd(FAbs(F), FMul(FAbs(g.lambda0), m))),
                 FMul(FMul(E13, g.cond),
                   FMul(m, FAdd3(FMul(ee, FAdd3(F1, FAbs(g.phi1), FAbs(g.phi2))), FAbs(g.lambda0),
                       FMul(FAbs(eff), FAdd3(FAbs(g.lambda0), FAbs(FMul(g.efficacy, g.eta)),
                                             FAbs(FDiv(FMul(g.eta, g.C), g.CD))))))))]

(***************************************************************************)
(* The exact solution of the two-layer equations with a = 0 for forcing    *)
(* held constant over a step.  x' = -M x + f, so x(dt) = xe + e^(-M dt)    *)
(* (x - xe), xe = (F/lambda0, F/lambda0), and for a 2x2 matrix with        *)
(* eigenvalues r1 > r2,                                                    *)
(* e^(-M dt) = (e^(-r1 dt) (M - r2) - e^(-r2 dt) (M - r1)) / (r1 - r2).    *)
(***************************************************************************)
\* everything times dt, so that the numbers are of order one
ExactStep(p, dt) ==
    LET C   == HeatCap(p.du)
        CD  == HeatCap(p.dl)
        h   == FDiv(dt, C)
        hD  == FDiv(dt, CD)
        ee  == FMul(p.efficacy, p.eta)
        m11 == FMul(h, FAdd(p.lambda0, ee))
        m12 == FNeg(FMul(h, ee))
        m22 == FMul(hD, p.eta)
        m21 == FNeg(m22)
        tr  == FAdd(m11, m22)
        df  == FSub(m11, m22)
        sq  == FSqrt(FAdd(FMul(df, df), FMul(FInt(4), FMul(m12, m21))))
        r1  == BDiv(FAdd(tr, sq), BInt(2))
        r2  == BDiv(FSub(tr, sq), BInt(2))
        e1  == FExp(FNeg(r1))
        e2  == FExp(FNeg(r2))
    IN [e11 |-> FDiv(FSub(FMul(e1, FSub(m11, r2)), FMul(e2, FSub(m11, r1))), sq),
        e12 |-> FDiv(FSub(FMul(e1, m12), FMul(e2, m12)), sq),
        e21 |-> FDiv(FSub(FMul(e1, m21), FMul(e2, m21)), sq),
        e22 |-> FDiv(FSub(FMul(e1, FSub(m22, r2)), FMul(e2, FSub(m22, r1))), sq),
        r1 |-> r1, r2 |-> r2]

\* E is ExactStep(p, dt)
ExactNext(p, E, T, TD, F) ==
    LET xe == FDiv(F, p.lambda0)
        u  == FSub(T, xe)
        w  == FSub(TD, xe)
    IN <<FAdd3(xe, FMul(E.e11, u), FMul(E.e12, w)), FAdd3(xe, FMul(E.e21, u), FMul(E.e22, w))>>

\* exact solution at points 1..n as a sequence of <<T, TD>>
RECURSIVE ExactSeq(_, _, _, _)
ExactSeq(p, E, drv, n) ==
    IF n = 0 THEN <<>>
    ELSE IF n = 1 THEN <<<<F0, F0>>>>
    ELSE LET s == ExactSeq(p, E, drv, n - 1)
         IN Append(s, ExactNext(p, E, s[n - 1][1], s[n - 1][2], drv[n - 1]))

(***************************************************************************)
(* The relations that tie equivalent parameters together (p two-layer with *)
(* a = 0, r impulse response), each as <<left, right>>; both sides equal.  *)
(***************************************************************************)
Relations(p, r) ==
    LET C  == HeatCap(p.du)
        CD == HeatCap(p.dl)
        ee == FMul(p.efficacy, p.eta)
    IN << \* sum of the decay rates, times C
          <<FAdd(FDiv(C, r.d1), FDiv(C, r.d2)), FAdd3(p.lambda0, ee, FDiv(FMul(p.eta, C), CD))>>,
          \* product of the time scales
          <<FMul(r.d1, r.d2), FDiv(FMul(C, CD), FMul(p.lambda0, p.eta))>>,
          <<FMul(p.lambda0, FAdd(r.q1, r.q2)), F1>>,
          <<FAdd(FDiv(FMul(C, r.q1), r.d1), FDiv(FMul(C, r.q2), r.d2)), F1>>,
          <<p.efficacy, r.efficacy>> >>

\* how much rounding the conversion amplifies: two-layer parameters
TLCond(p) ==
    LET C  == HeatCap(p.du)
        CD == HeatCap(p.dl)
        b1 == FAdd(p.lambda0, FMul(p.efficacy, p.eta))   \* times 1/C
        b2 == FDiv(FMul(p.eta, C), CD)                   \* times 1/C
        b  == FAdd(b1, b2)
        bs == FSub(b1, b2)
        c  == FDiv(FMul(FMul(p.lambda0, p.eta), C), CD)
        x  == FDiv(FMul(FMul(p.efficacy, FMul(p.eta, p.eta)), C), CD)
    IN FAdd3(F1, FAbs(FDiv(FMul(b, b), c)), FAbs(FDiv(FMul(bs, bs), x)))

AsTL(g) == [du |-> FDiv(g.C, WaterHeat), dl |-> FDiv(g.CD, WaterHeat), lambda0 |-> g.lambda0,
            a |-> F0, efficacy |-> g.efficacy, eta |-> g.eta]

\* impulse response parameters of a two-layer model, from the relations
AsIR(p) ==
    LET C  == HeatCap(p.du)
        CD == HeatCap(p.dl)
        E  == ExactStep(p, C)                            \* rates times C
        d1 == FDiv(C, E.r1)
        d2 == FDiv(C, E.r2)
        s  == FDiv(F1, p.lambda0)
        \* q1 + q2 = s and q1/d1 + q2/d2 = 1/C, with rates r = C/d
        q1 == FDiv(FSub(F1, FMul(s, E.r2)), FSub(E.r1, E.r2))
    IN [q1 |-> q1, q2 |-> FSub(s, q1), d1 |-> d1, d2 |-> d2, efficacy |-> p.efficacy]
=============================================================================
