------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Recorded behaviours of the real code against the specification.         *)
(*                                                                         *)
(* Each line of the file named by TRACES is one trace: a JSON array of     *)
(* events, one per public call, each with the call's arguments, its        *)
(* outcome and the state of every live object afterwards.  Each trace is   *)
(* an initial state of its own; consuming an event is one step.  Verdicts  *)
(* are total: an event that the specification does not allow is printed    *)
(* with the names of the clauses it breaks, and the trace goes on from the *)
(* logged state, so that all of it is judged.                              *)
(***************************************************************************)
EXTENDS Scenario, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t,      \* index of the trace
          l,      \* events consumed
          objs,   \* object name -> object (module Model)
          runs,   \* completed runs, in order
          convs,  \* conversions done: [kind, par, out, id]
          held,   \* id -> digest of something handed out by or to the code
          dflt    \* <<kind, parameter>> -> default value, once seen

tvars == <<t, l, objs, runs, convs, held, dflt>>

Init == /\ t \in 1..Len(Traces) /\ l = 0
        /\ objs = <<>> /\ runs = <<>> /\ convs = <<>> /\ held = <<>> /\ dflt = <<>>

C(ok, name) == IF ok THEN {} ELSE {name}
Range(s) == {s[i] : i \in 1..Len(s)}
IsErr(e, cls) == ~e.ok /\ cls \in Range(e.err)
Has(f, x) == x \in DOMAIN f
With(f, x, v) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN v ELSE f[z]]

-----------------------------------------------------------------------------
(* Laws on logged outputs.  r has kind, par, dt, drv, A, B, R (module      *)
(* Model); points lo..hi were computed, each from the logged previous one. *)

Meets(x, law) == IF Finite(x) THEN Near(x, law.v, law.tol)
                 ELSE x = Huge \/ FLt(FInt(100000000), FMul(FTiny(9), FMul(FTiny(9), FAbs(law.v))))

FailsAt(r, j, w) ==
    IF j = 1
    THEN C(r.A[1] = F0 /\ r.B[1] = F0, "zero.temp") \cup C(r.R[1] = F0, "zero.uptake")
    ELSE LET T == r.A[j - 1]
             D == r.B[j - 1]
             F == r.drv[j - 1]
         IN IF ~(Finite(T) /\ Finite(D) /\ Finite(F)) THEN {}
            ELSE IF r.kind = "TL"
            THEN C(Meets(r.A[j], TLUpper(r.par, r.dt, T, D, F)), "tl.upper")
                 \cup C(Meets(r.B[j], TLLower(r.par, r.dt, T, D)), "tl.lower")
                 \cup (IF Finite(r.A[j]) /\ Finite(r.B[j])
                       THEN LET u == TLUptake(r.par, r.dt, T, D, F, r.A[j], r.B[j])
                                dH == FSub(Stored(r.par, r.A[j], r.B[j]), Stored(r.par, T, D))
                            IN C(Meets(r.R[j], u), "tl.uptake")
                               \cup C(Finite(r.R[j]) =>
                                      Near(FMul(r.R[j], r.dt), dH, FAbs(FMul(u.tol, r.dt))), "tl.budget")
                       ELSE {})
            ELSE C(Meets(r.A[j], IRBox(r.par.q1, w.e1, T, F)), "ir.box1")
                 \cup C(Meets(r.B[j], IRBox(r.par.q2, w.e2, D, F)), "ir.box2")
                 \cup C(Meets(r.R[j], IRUptake(w.g, T, D, F)), "ir.uptake")

\* what the steps of an impulse response run have in common
Work(r) == IF r.kind = "IR" THEN [e1 |-> Decay(r.par.d1, r.dt), e2 |-> Decay(r.par.d2, r.dt), g |-> Equiv(r.par)]
           ELSE [e1 |-> F0]

LawFails(r, lo, hi) ==
    LET w == Work(r) IN UNION {FailsAt(r, j, w) : j \in lo..hi}

\* the new run against all earlier ones
FunFails(r, rs) == C(\A i \in 1..Len(rs) : Consistent(r, rs[i]), "fun")

-----------------------------------------------------------------------------
(* The logged state of an object against the expected one.                 *)
Lens(b, n) == Len(b.A) = n /\ Len(b.B) = n /\ Len(b.R) = n
SameOut(x, b) == b.A = x.A /\ b.B = x.B /\ b.R = x.R
ParSame(x, b, ns) == \A n \in ns : Same(b.par[n], x.par[n])
HeatCapsRight(x, b) ==
    x.kind = "TL" => Same(b.hc[1], HeatCap(x.par.du)) /\ Same(b.hc[2], HeatCap(x.par.dl))

\* What was observed of object o; y is what is expected of it.  Looking at an object may
\* change it (caches), so an event may have looked at its outputs only: the rest is then as
\* expected.
Seen(e, o, y) ==
    LET b == e.obs[o]
    IN IF "par" \in DOMAIN b THEN b
       ELSE [par |-> y.par, dt |-> y.dt, drv |-> y.drv, A |-> b.A, B |-> b.B, R |-> b.R,
             hc |-> IF y.kind = "TL" THEN <<HeatCap(y.par.du), HeatCap(y.par.dl)>> ELSE <<>>]

\* objects other than o, and everything handed out, are as before
FrameFails(e, o) ==
    UNION {IF x = o THEN {} ELSE
             LET b == Seen(e, x, objs[x]) IN
             C(ParSame(objs[x], b, ParsOf(objs[x].kind)) /\ Same(objs[x].dt, b.dt)
               /\ HeatCapsRight(objs[x], b), "iso.par")
             \cup C(SameSeq(objs[x].drv, b.drv), "iso.drv")
             \cup C(SameOut(objs[x], b), "iso.out") : x \in DOMAIN objs}
    \cup C(\A h \in DOMAIN held \ (IF e.op = "tamper" THEN {e.h} ELSE {}) :
             Has(e.held, h) /\ e.held[h] = held[h], "held")

\* the target's parameters, timestep and driver are as expected in x
ConfigFails(x, b, parname, drvname) ==
    C(ParSame(x, b, ParsOf(x.kind)) /\ Same(b.dt, x.dt) /\ HeatCapsRight(x, b), parname)
    \cup C(SameSeq(x.drv, b.drv), drvname)

Adopt(x, b) == [x EXCEPT !.A = b.A, !.B = b.B, !.R = b.R]

-----------------------------------------------------------------------------
(* Each operation: <<failing clauses, objs', new runs, convs', dflt'>>     *)

\* a logged argument: the value in base units, or why it must be refused
Refusal(q, n) == IF q.t # "q" THEN "TypeError"
                 ELSE IF ~IsUnit(q.u) THEN "UnitError"
                 ELSE IF DimOf(q.u) # ParDim[n] THEN "UnitError" ELSE "none"
Value(q) == ToBase(q.v, q.u)

Settable(kind) == ParsOf(kind) \cup {"delta_t"}

EvNew(e) ==
    LET given == DOMAIN e.q
        ref   == {Refusal(e.q[n], n) : n \in given} \ {"none"}
    IN IF ref # {}
       THEN <<C(\E c \in ref : IsErr(e, c), "rej.class"), objs, <<>>, convs, dflt>>
       ELSE IF ~e.ok
       THEN \* must be because of the order of the time scales; defaults count too
            LET d(n) == IF n \in given THEN Value(e.q[n])
                        ELSE IF Has(dflt, <<e.kind, n>>) THEN dflt[<<e.kind, n>>]
                        ELSE IF n = "d1" THEN FInt(284018400) ELSE FMul(FInt(400), FInt(31557600))
                bad == e.kind = "IR" /\ ~FLt(d("d1"), d("d2"))
            IN <<C(bad, "ok.new") \cup C(bad => IsErr(e, "ValueError"), "rej.order"),
                 objs, <<>>, convs, dflt>>
       ELSE LET ns == Settable(e.kind)
                \* looked at unless everything was given
                b == IF "par" \in DOMAIN e.obs[e.o] THEN e.obs[e.o]
                     ELSE Seen(e, e.o, Fresh(e.kind, [n \in ParsOf(e.kind) |-> Value(e.q[n])], Value(e.q["delta_t"])))
                got(n) == IF n = "delta_t" THEN b.dt ELSE b.par[n]
                old(n) == Has(dflt, <<e.kind, n>>)
                val(n) == IF n \in given THEN Value(e.q[n])
                          ELSE IF old(n) THEN dflt[<<e.kind, n>>] ELSE got(n)
                x == [Fresh(e.kind, [n \in ParsOf(e.kind) |-> val(n)], val("delta_t"))
                        EXCEPT !.drv = b.drv]
            IN << C(\A n \in given : Same(got(n), val(n)), "set.readback")
                  \cup C(\A n \in ns \ given : Same(got(n), val(n)), "iso.default")
                  \cup C(HeatCapsRight(x, b), "set.heatcap")
                  \cup C(OrderOK(e.kind, x.par), "rej.order")
                  \cup C(\A i \in 1..Len(b.drv) : b.drv[i] = NaN, "iso.fresh"),
                  With(objs, e.o, Adopt(x, b)), <<>>, convs,
                  [z \in DOMAIN dflt \cup {<<e.kind, n>> : n \in ns \ given} |->
                     IF Has(dflt, z) THEN dflt[z] ELSE got(z[2])] >>

\* a deep copy is in the state of its source (which FrameFails looks after), and from then
\* on an object like any other
EvCopy(e) ==
    IF ~e.ok THEN <<{"iso.copy"}, objs, <<>>, convs, dflt>>
    ELSE LET x == objs[e.src]
             b == Seen(e, e.o, x)
         IN <<ConfigFails(x, b, "iso.copy", "iso.copy") \cup C(SameOut(x, b), "iso.copy"),
              With(objs, e.o, Adopt(x, b)), <<>>, convs, dflt>>

EvSet(e) ==
    LET x == objs[e.o]
        r == Refusal(e.q, e.n)
        b == Seen(e, e.o, IF r # "none" THEN x
                          ELSE IF e.n = "delta_t" THEN SetDt(x, Value(e.q)) ELSE SetPar(x, e.n, Value(e.q)))
    IN IF r # "none"
       THEN <<C(IsErr(e, r), "rej.class")
              \cup ConfigFails(x, b, "rej.effect", "rej.effect") \cup C(SameOut(x, b), "rej.effect"),
              With(objs, e.o, [Adopt(x, b) EXCEPT !.tried = TRUE]), <<>>, convs, dflt>>
       ELSE LET v == Value(e.q)
                y == IF e.n = "delta_t" THEN SetDt(x, v) ELSE SetPar(x, e.n, v)
                others == ParsOf(x.kind) \ {e.n}
            IN << C(e.ok, "ok.set")
                  \cup C(Same(IF e.n = "delta_t" THEN b.dt ELSE b.par[e.n], v), "set.readback")
                  \cup C(ParSame(x, b, others) /\ (e.n # "delta_t" => Same(b.dt, x.dt)), "set.other")
                  \cup C(HeatCapsRight(y, b), "set.heatcap")
                  \cup C(SameSeq(x.drv, b.drv), "set.driver")
                  \cup C(SameOut(x, b), "set.outputs"),
                  With(objs, e.o, Adopt(y, b)), <<>>, convs, dflt >>

\* e.q: forcing as logged (t = "q": one-dimensional quantity; "shape": a quantity of
\* another shape; otherwise no quantity); e.via: "set_drivers" or "erf"
EvDrive(e) ==
    LET x == objs[e.o]
        wrong == IF e.q.t = "q" THEN ~IsUnit(e.q.u) \/ DimOf(e.q.u) # "flux" ELSE TRUE
        cls == IF e.q.t = "q" THEN "UnitError"
               ELSE IF e.q.t = "shape" \/ (e.via = "set_drivers" /\ e.q.t # "array") THEN "Exception"
               ELSE "TypeError"
        b == Seen(e, e.o, IF wrong THEN x ELSE Drive(x, [i \in 1..Len(e.q.v) |-> ToBase(e.q.v[i], e.q.u)]))
    IN IF wrong
       THEN <<C(IsErr(e, cls), "rej.class")
              \cup ConfigFails(x, b, "rej.effect", "rej.effect") \cup C(SameOut(x, b), "rej.effect"),
              With(objs, e.o, [Adopt(x, b) EXCEPT !.tried = TRUE]), <<>>, convs, dflt>>
       ELSE LET s == [i \in 1..Len(e.q.v) |-> ToBase(e.q.v[i], e.q.u)]
                y == Drive(x, s)
            IN << C(e.ok, "ok.drive")
                  \cup ConfigFails(y, b, "set.other", "set.readback")
                  \cup C(SameOut(x, b), "set.outputs"),
                  With(objs, e.o, Adopt(y, b)), <<>>, convs, dflt >>

EvReset(e) ==
    LET x == objs[e.o]
        b == Seen(e, e.o, x)
    IN IF ~CanReset(x)
       THEN <<C(IsErr(e, "ModelStateError"), "reset.class")
              \cup ConfigFails(x, b, "reset.config", "reset.config"),
              With(objs, e.o, [Adopt(x, b) EXCEPT !.st = "raw"]), <<>>, convs, dflt>>
       ELSE LET y == Reset(x)
            IN << C(e.ok, "ok.reset") \cup C(SameOut(y, b), "reset.undef")
                  \cup ConfigFails(x, b, "reset.config", "reset.config"),
                  With(objs, e.o, [Adopt(y, b) EXCEPT !.st = IF Lens(b, Len(y.drv)) THEN "run" ELSE "raw"]),
                  <<>>, convs, dflt >>

\* stepping or running from point k to point hi; points after hi are not computed
Advance(e, x, hi, okname) ==
    LET b == Seen(e, e.o, x)
        n == Len(x.A)
        y == [Adopt(x, b) EXCEPT !.k = hi]
        fit == Physical(x.kind, x.par)
        computed(j) == b.A[j] # NaN /\ b.B[j] # NaN /\ b.R[j] # NaN
    IN IF ~Lens(b, n)
       THEN <<{"step.length"}, With(objs, e.o, [y EXCEPT !.st = "raw"]), <<>>, convs, dflt>>
       ELSE LET fine == \A j \in (x.k + 1)..hi : b.A[j] # NaN /\ b.B[j] # NaN
                new == IF Complete(y) /\ fine /\ fit THEN <<RunOf(y)>> ELSE <<>>
            IN << C(e.ok \/ ~fit, okname)
                  \cup C(~fit \/ \A j \in (x.k + 1)..hi : computed(j) \/ (j > 1 /\ ~Finite(b.A[j - 1])), "step.computed")
                  \* a refused assignment has not moved the place where the run goes on
                  \cup C(~x.tried \/ ~fit \/ x.k = 0 \/ hi = x.k \/ ~Finite(x.A[x.k]) \/ b.A[x.k + 1] # NaN, "rej.position")
                  \cup C(\A j \in (1..n) \ ((x.k + 1)..hi) :
                           b.A[j] = x.A[j] /\ b.B[j] = x.B[j] /\ b.R[j] = x.R[j], "step.others")
                  \cup ConfigFails(x, b, "step.config", "step.config")
                  \cup (IF hi <= Len(x.drv) /\ fit THEN LawFails(y, x.k + 1, hi) ELSE {})
                  \cup (IF new # <<>> THEN FunFails(new[1], runs) ELSE {}),
                  With(objs, e.o, IF fit THEN y ELSE [y EXCEPT !.st = "raw"]), new, convs, dflt >>

\* e.m steps in a row, more than one only where they fit
EvStep(e) ==
    LET x == objs[e.o]
        b == Seen(e, e.o, x)
    IN IF x.st # "run"
       THEN <<ConfigFails(x, b, "step.config", "step.config"), With(objs, e.o, Adopt(x, b)), <<>>, convs, dflt>>
       ELSE IF CanStep(x) THEN Advance(e, x, Min2(x.k + e.m, Len(x.A)), "ok.step")
       ELSE << C(~e.ok, "end.raise") \cup C(SameOut(x, b), "end.effect")
               \cup ConfigFails(x, b, "step.config", "step.config"),
               With(objs, e.o, Adopt(x, b)), <<>>, convs, dflt >>

EvRun(e) ==
    LET x == objs[e.o]
        b == Seen(e, e.o, x)
    IN IF x.st # "run" \/ x.k # 0
       THEN << ConfigFails(x, b, "step.config", "step.config")
               \cup C(x.st = "run" /\ Lens(b, Len(x.A)) =>
                        \A j \in 1..x.k : b.A[j] = x.A[j] /\ b.B[j] = x.B[j] /\ b.R[j] = x.R[j], "step.others"),
               With(objs, e.o, [Adopt(x, b) EXCEPT !.st = "raw"]), <<>>, convs, dflt >>
       ELSE Advance(e, x, Len(x.A), "ok.run")

-----------------------------------------------------------------------------
(* Conversions                                                             *)
ConvKeys(kind) == IF kind = "TL" THEN IRPars ELSE TLPars \ {"a"}

\* relative rounding error of a conversion
ConvEps(kind, par) ==
    FAdd(E10, FMul(E14, IF kind = "TL" THEN TLCond(par) ELSE LET g == Equiv(par) IN FMul(g.cond, g.cond)))

RelFails(x, out) ==
    LET p == IF x.kind = "TL" THEN x.par ELSE With(out, "a", F0)
        r == IF x.kind = "TL" THEN out ELSE x.par
        eps == ConvEps(x.kind, x.par)
        rel == Relations(p, r)
        near(i) == Near(rel[i][1], rel[i][2], FMul(eps, FMax(FAbs(rel[i][1]), FAbs(rel[i][2]))))
    IN C(near(1) /\ near(2), "conv.rates") \cup C(near(3), "conv.equilibrium")
       \cup C(near(4), "conv.heatcap") \cup C(near(5), "conv.efficacy")
       \cup C(x.kind = "TL" => FLt(F0, out.d1) /\ FLt(out.d1, out.d2), "conv.order")

AllPositive(p) == \A n \in DOMAIN p \ {"a"} : Finite(p[n]) /\ FLt(F0, p[n])

EvConv(e) ==
    LET x == objs[e.o]
        b == Seen(e, e.o, x)
        base == ConfigFails(x, b, "conv.pure", "conv.pure") \cup C(SameOut(x, b), "conv.pure")
        refuse == x.kind = "TL" /\ x.par.a # F0
    IN IF refuse
       THEN <<base \cup C(IsErr(e, "ValueError"), "conv.refuse"), With(objs, e.o, Adopt(x, b)), <<>>, convs, dflt>>
       ELSE IF ~e.ok THEN <<base \cup {"ok.conv"}, With(objs, e.o, Adopt(x, b)), <<>>, convs, dflt>>
       ELSE IF DOMAIN e.out # ConvKeys(x.kind) \/ \E n \in DOMAIN e.out : ~Finite(e.out[n])
       THEN <<base \cup {"conv.keys"}, With(objs, e.o, Adopt(x, b)), <<>>, convs, dflt>>
       ELSE IF ~AllPositive(e.out)
       THEN <<base \cup {"conv.positive"}, With(objs, e.o, Adopt(x, b)), <<>>, convs, dflt>>
       ELSE << base \cup RelFails(x, e.out)
               \cup C(\A i \in 1..Len(convs) :
                        convs[i].kind = x.kind /\ SamePars(x.kind, convs[i].par, x.par) =>
                          \A n \in DOMAIN e.out : SameRel(e.out[n], convs[i].out[n],
                             FMul(FInt(10), ConvEps(x.kind, x.par))), "fun.conv")
               \* there and back: the source of the model this one was made from
               \cup C(\A i \in 1..Len(convs) :
                        e.src = convs[i].id =>
                          \A n \in DOMAIN e.out : SameRel(e.out[n], convs[i].par[n],
                             FMul(FInt(10), FAdd(ConvEps(x.kind, x.par), ConvEps(convs[i].kind, convs[i].par)))),
                        "conv.roundtrip"),
               With(objs, e.o, Adopt(x, b)), <<>>,
               Append(convs, [kind |-> x.kind, par |-> x.par, out |-> e.out, id |-> e.id]), dflt >>

-----------------------------------------------------------------------------
(* Judgements about earlier runs                                           *)

\* run e.ir of an impulse response model against the exact solution of the two-layer
\* equations with the parameters of object e.tl
EvEquiv(e) ==
    IF e.ir > Len(runs) THEN <<{"equiv.norun"}, objs, <<>>, convs, dflt>>
    ELSE
    LET r == runs[e.ir]
        p == objs[e.tl].par
        n == Len(r.A)
        X == ExactSeq(p, ExactStep(p, r.dt), r.drv, n)
        eps == FMul(FInt(100), FAdd(FMul(FInt(10), ConvEps("TL", p)), ConvEps("IR", r.par)))
        amp == FAdd(MaxAbs(r.A, n), MaxAbs(r.B, n))
        flux == FAdd(MaxAbs(r.drv, n), FMul(amp, FAdd(FAbs(p.lambda0),
                   FMul(FMul(FAdd(F1, p.efficacy), p.eta), FAdd(F1, F1)))))
    IN <<C(\A i \in 1..n : Finite(r.A[i]) /\ Finite(r.B[i]) /\ Finite(r.R[i]), "equiv.finite")
         \cup (IF \E i \in 1..n : ~(Finite(r.A[i]) /\ Finite(r.B[i]) /\ Finite(r.R[i])) THEN {}
               ELSE C(\A i \in 1..n : Near(FAdd(r.A[i], r.B[i]), X[i][1], FAdd(Floor, FMul(eps, amp))), "equiv.temp")
                    \cup C(\A i \in 2..n : Near(r.R[i], TLFlux(p, X[i - 1][1], X[i - 1][2], r.drv[i - 1]),
                                                FAdd(Floor, FMul(eps, flux))), "equiv.uptake")),
         objs, <<>>, convs, dflt>>

\* two-layer run e.x and impulse response run e.y, same forcing and timestep dt; runs e.x2, e.y2
\* with half the timestep and each forcing value held twice: halving the timestep
\* brings the two models closer together at the common points
EvDisc(e) ==
    IF {e.x, e.y, e.x2, e.y2} \subseteq 1..Len(runs)
    THEN LET n == Len(runs[e.x].A)
             gap(i) == FAbs(FSub(runs[e.x].A[i], FAdd(runs[e.y].A[i], runs[e.y].B[i])))
             gap2(i) == FAbs(FSub(runs[e.x2].A[2 * i - 1], FAdd(runs[e.y2].A[2 * i - 1], runs[e.y2].B[2 * i - 1])))
             mx(g(_)) == LET RECURSIVE h(_) h(i) == IF i = 0 THEN F0 ELSE FMax(h(i - 1), g(i)) IN h(n)
         IN <<C(FLe(FMul(FInt(4), mx(gap2)), FMul(FInt(3), FAdd(mx(gap), E8))), "equiv.converges"), objs, <<>>, convs, dflt>>
    ELSE <<{"equiv.norun"}, objs, <<>>, convs, dflt>>

LinNear(a, b, c, al, be, n, tol) ==
    \A i \in 1..n : Finite(a[i]) /\ Finite(b[i]) /\ Finite(c[i])
                    /\ Near(FAdd(FMul(al, a[i]), FMul(be, b[i])), c[i], tol)

\* run e.k was driven by e.al times the forcing of e.i plus e.be times that of e.j
EvLin(e) ==
    IF {e.i, e.j, e.k} \subseteq 1..Len(runs)
    THEN LET a == runs[e.i]
             b == runs[e.j]
             c == runs[e.k]
             n == Len(c.A)
             al == FAbs(e.al)
             be == FAbs(e.be)
             sum(f(_, _)) == FAdd3(f(c, n), FMul(al, f(a, n)), FMul(be, f(b, n)))
             tt == FMul(FInt(10), sum(TempTol))
             tf == FMul(FInt(10), sum(FluxTol))
         IN <<C(LinNear(a.A, b.A, c.A, e.al, e.be, n, tt) /\ LinNear(a.B, b.B, c.B, e.al, e.be, n, tt), "lin.temp")
              \cup C(LinNear(a.R, b.R, c.R, e.al, e.be, n, tf), "lin.uptake")
              \cup C((\A i \in 1..n : c.drv[i] = F0) => \A i \in 1..n : c.A[i] = F0 /\ c.B[i] = F0 /\ c.R[i] = F0, "lin.zero"),
              objs, <<>>, convs, dflt>>
    ELSE <<{"lin.norun"}, objs, <<>>, convs, dflt>>

\* response of run e.i to constant forcing
EvEq(e) ==
    IF e.i > Len(runs) THEN <<{"eq.norun"}, objs, <<>>, convs, dflt>>
    ELSE
    LET r == runs[e.i]
        n == Len(r.A)
        F == r.drv[1]
        pos == FLe(F0, F)
        p == r.par
        T(i) == LET s == IF r.kind = "TL" THEN r.A[i] ELSE FAdd(r.A[i], r.B[i]) IN IF pos THEN s ELSE FNeg(s)
        D(i) == IF pos THEN r.B[i] ELSE FNeg(r.B[i])
        eq == IF r.kind = "TL" THEN FDiv(FAbs(F), p.lambda0) ELSE FMul(FAbs(F), FAdd(p.q1, p.q2))
        slack == FAdd(Floor, FMul(E11, eq))
        E == ExactStep(p, r.dt)
        \* slowest and fastest rate times the timestep
        slow == IF r.kind = "TL" THEN E.r2 ELSE FDiv(r.dt, p.d2)
        short == r.kind = "IR" \/ FLe(E.r1, FRat(1, 2))
        finite == \A i \in 1..n : Finite(r.A[i]) /\ Finite(r.B[i]) /\ Finite(r.R[i])
        fx == FMul(E8, FAdd(FAbs(F), FluxTol(r, n)))
    IN IF ~finite THEN <<{"eq.finite"}, objs, <<>>, convs, dflt>>
       ELSE IF ~short THEN <<{}, objs, <<>>, convs, dflt>>
       ELSE <<C(\A i \in 2..n : FLe(T(i - 1), FAdd(T(i), slack)), "eq.monotone")
              \cup C(\A i \in 1..n : FLe(F0, FAdd(T(i), slack)) /\ FLe(T(i), FAdd(eq, slack)), "eq.bounded")
              \cup C(r.kind = "TL" => \A i \in 1..n : FLe(F0, FAdd(D(i), slack)) /\ FLe(D(i), FAdd(T(i), slack)), "eq.lower")
              \cup (IF FLe(FInt(40), FMul(slow, FInt(n - 1)))
                    THEN C(Near(T(n), eq, FAdd(Floor, FMul(E8, eq))), "eq.reached")
                         \cup C(Near(r.R[n], F0, FAdd(Floor, FAdd(FMul(FInt(100), fx), FluxTol(r, n)))), "eq.balance")
                    ELSE {}), objs, <<>>, convs, dflt>>

\* climate sensitivity; elementwise for arrays
EvEcs(e) ==
    LET bad == e.lam.t # "q" \/ (e.hasf /\ e.f.t # "q")
    IN IF bad THEN <<C(IsErr(e, "TypeError"), "ecs.type"), objs, <<>>, convs, dflt>>
       ELSE IF ~e.ok THEN <<{"ok.ecs"}, objs, <<>>, convs, dflt>>
       ELSE LET m == IF e.hasf THEN Len(e.f.v) ELSE 1
                n == IF Len(e.lam.v) = 1 THEN m ELSE Len(e.lam.v)
                pick(s, i) == s[IF Len(s) = 1 THEN 1 ELSE i]
                f(i) == IF e.hasf THEN ToBase(pick(e.f.v, i), e.f.u) ELSE FRat(374, 100)
            IN <<C(Len(e.out) = n, "ecs.shape")
                 \cup C(Len(e.out) = n => \A i \in 1..n :
                         Same(e.out[i], FNeg(FDiv(f(i), ToBase(pick(e.lam.v, i), e.lam.u)))), "ecs.value"),
                 objs, <<>>, convs, dflt>>

-----------------------------------------------------------------------------
(* Scenario sets                                                           *)
KeptKeys(row, q) == DOMAIN row.meta \ ({"variable"} \cup {q.pars[i].col : i \in 1..Len(q.pars)})
Matches(row, q) == \A k \in KeptKeys(row, q) : Has(q.meta, k) /\ q.meta[k] = row.meta[k]

\* value of row q at point p of the axis ts; w: where the output's times begin on ts, and their set
Where(times, ts) ==
    IF times = <<>> THEN [off |-> 0, set |-> {}]
    ELSE TLCEval([off |-> (CHOOSE p \in 1..Len(ts) : ts[p] = times[1]) - 1, set |-> Range(times)])
ValueAt(q, times, ts, w, p) ==
    IF p - w.off \in 1..Len(times) /\ times[p - w.off] = ts[p] THEN q.vals[p - w.off]
    ELSE IF ts[p] \in w.set THEN q.vals[CHOOSE j \in 1..Len(times) : times[j] = ts[p]]
    ELSE NaN

EvScen(e) ==
    LET x == objs[e.o]
        b == e.obs[e.o]
        faults == Faults(e.tab, e.var)
        ord == TimeOrder(e.tab.times)
        ts == Permute(e.tab.times, ord)
        parfail == C(ParSame(x, b, ParsOf(x.kind)) /\ HeatCapsRight(x, b), "scen.config")
        after == [Adopt(x, b) EXCEPT !.dt = b.dt, !.drv = b.drv, !.st = "raw", !.clean = FALSE]
        still == Same(b.dt, x.dt) /\ SameSeq(b.drv, x.drv) /\ SameOut(x, b)
        \* refusing a multiple of a unit is as good as understanding it
        unclear == ~e.ok /\ IsErr(e, "ValueError") /\ \E i \in 1..Len(Sel(e.tab.rows, e.var)) : e.tab.rows[Sel(e.tab.rows, e.var)[i]].unit \in Multiples
    IN IF "empty" \in faults \/ ~Physical(x.kind, x.par) THEN <<parfail, With(objs, e.o, after), <<>>, convs, dflt>>
       ELSE IF faults # {}
       THEN << parfail
               \cup (IF unclear \/ \E f \in faults : IsErr(e, ErrorClass(f)) THEN {} ELSE {"scen.bad." \o f : f \in faults})
               \cup C(faults = {"nodata"} => still, "scen.effect.nodata")
               \cup C(faults \subseteq {"timestep", "gap"} /\ "timestep" \in faults => Same(b.dt, x.dt) /\ SameSeq(b.drv, x.drv), "scen.effect.timestep")
               \cup C(Same(b.dt, x.dt) \/ ("timestep" \notin faults /\ Same(b.dt, TimestepValue(ts))), "scen.effect.dt"),
               With(objs, e.o, after), <<>>, convs, dflt >>
       ELSE IF ~e.ok THEN <<parfail \cup C(unclear, "ok.scen"), With(objs, e.o, after), <<>>, convs, dflt>>
       ELSE
       LET sel == Sel(e.tab.rows, e.var)
           ns  == Len(sel)
           dt  == TimestepValue(ts)
           qs  == e.out.rows
           vars == OutVars(x.kind) \cup {e.var}
           find(s, v) == {i \in 1..Len(qs) : qs[i].variable = v /\ Matches(e.tab.rows[sel[s]], qs[i])}
           whole == \A s \in 1..ns : \A v \in vars : Cardinality(find(s, v)) = 1
           rowsOK == whole /\ Len(qs) = ns * Cardinality(vars)
           timesOK == Range(e.out.times) \subseteq Range(ts) /\ Len(e.out.times) <= Len(ts)
                      /\ \A i \in 1..Len(qs) : Len(qs[i].vals) = Len(e.out.times)
       IN IF ~rowsOK \/ ~timesOK
          THEN << parfail \cup C(rowsOK, "scen.rows") \cup C(timesOK, "scen.times")
                  \cup C(Same(b.dt, dt), "scen.timestep"),
                  With(objs, e.o, after), <<>>, convs, dflt >>
          ELSE
          LET at == TLCEval([s \in 1..ns |-> [v \in vars |-> qs[CHOOSE i \in find(s, v) : TRUE]]])
              w == Where(e.out.times, ts)
              pts == TLCEval([s \in 1..ns |-> Points(e.tab.rows[sel[s]].vals, ord)])
              ser(s, v) == TLCEval([i \in 1..Len(pts[s]) |-> ValueAt(at[s][v], e.out.times, ts, w, pts[s][i])])
              VA == IF x.kind = "TL" THEN "Surface Temperature|Upper" ELSE "Surface Temperature|Box 1"
              VB == IF x.kind = "TL" THEN "Surface Temperature|Lower" ELSE "Surface Temperature|Box 2"
              rr == TLCEval([s \in 1..ns |-> [kind |-> x.kind, par |-> x.par, dt |-> dt,
                                      drv |-> Forcing(e.tab.rows[sel[s]], ord),
                                      A |-> ser(s, VA), B |-> ser(s, VB), R |-> ser(s, "Heat Uptake")]])
              totals(s) == LET tot == ser(s, "Surface Temperature")
                           IN \A i \in 1..Len(tot) :
                                Finite(rr[s].A[i]) /\ Finite(rr[s].B[i]) =>
                                  Finite(tot[i]) /\ Near(tot[i], FAdd(rr[s].A[i], rr[s].B[i]),
                                       FAdd(Floor, FMul(E13, FAdd(FAbs(rr[s].A[i]), FAbs(rr[s].B[i])))))
              idx(s) == at[s][e.var].runidx
              here(s) == {pts[s][i] : i \in 1..Len(pts[s])}
              \* a run that has overflown has no values to speak of
              fine(s, i) == \A j \in 1..(i - 1) : Finite(rr[s].A[j]) /\ Finite(rr[s].B[j])
              full(s) == \A v \in vars : \A i \in 1..Len(pts[s]) :
                            ValueAt(at[s][v], e.out.times, ts, w, pts[s][i]) # NaN \/ ~fine(s, i)
              none(s) == \A v \in vars : \A p \in (1..Len(ts)) \ here(s) : ValueAt(at[s][v], e.out.times, ts, w, p) = NaN
              sound(s) == \A i \in 1..Len(pts[s]) : rr[s].A[i] # NaN /\ rr[s].B[i] # NaN /\ rr[s].R[i] # NaN
              drvOK(s) == LET d == ser(s, e.var) raw == e.tab.rows[sel[s]].vals
                          IN at[s][e.var].unit = e.tab.rows[sel[s]].unit
                             /\ \A i \in 1..Len(d) : Same(d[i], raw[ord[pts[s][i]]])
              parOK(s, v) == \A n \in ParsOf(x.kind) :
                                \E i \in 1..Len(at[s][v].pars) : at[s][v].pars[i].n = n /\ Same(at[s][v].pars[i].v, x.par[n])
              extraOK(s, v) == DOMAIN at[s][v].meta \subseteq
                                 DOMAIN e.tab.rows[sel[s]].meta \cup {at[s][v].pars[i].col : i \in 1..Len(at[s][v].pars)}
          IN << parfail
                \cup C(Same(b.dt, dt), "scen.timestep")
                \cup C(\A s \in 1..ns : full(s), "scen.points") \cup C(\A s \in 1..ns : none(s), "scen.outside")
                \cup C(\A s \in 1..ns : drvOK(s), "scen.driver")
                \cup C(\A s \in 1..ns : \A v \in vars \ {e.var} : at[s][v].unit = OutUnit(v), "scen.units")
                \cup C(\A s \in 1..ns : \A v \in vars : at[s][v].model = ModelName(x.kind), "scen.model")
                \cup C(/\ \A s \in 1..ns : \A v \in vars : at[s][v].runidx = idx(s)
                       /\ \A s, u \in 1..ns : s # u => idx(s) # idx(u)
                       /\ {idx(s) : s \in 1..ns} = 0..(ns - 1), "scen.runidx")
                \cup C(\A s \in 1..ns : \A v \in vars : parOK(s, v), "scen.pars")
                \cup C(\A s \in 1..ns : \A v \in vars : extraOK(s, v), "scen.extra")
                \cup (IF x.kind = "IR" THEN C(\A s \in 1..ns : totals(s), "ir.total") ELSE {})
                \cup UNION {LawFails(rr[s], 1, Len(pts[s])) : s \in 1..ns}
                \cup UNION {IF sound(s) THEN FunFails(rr[s], runs) ELSE {} : s \in 1..ns}
                \cup UNION {IF sound(s) THEN FunFails(rr[s], SubSeq(rr, 1, s - 1)) ELSE {} : s \in 1..ns},
                With(objs, e.o, after), SelectSeq(rr, LAMBDA r : \A i \in 1..Len(r.A) : r.A[i] # NaN /\ r.B[i] # NaN /\ r.R[i] # NaN),
                convs, dflt >>

-----------------------------------------------------------------------------
Eval(e) ==
    IF e.crash # "" THEN <<{"crash"}, objs, <<>>, convs, dflt>>
    ELSE CASE e.op = "new"   -> EvNew(e)
           [] e.op = "copy"  -> EvCopy(e)
           [] e.op = "set"   -> EvSet(e)
           [] e.op = "drive" -> EvDrive(e)
           [] e.op = "reset" -> EvReset(e)
           [] e.op = "step"  -> EvStep(e)
           [] e.op = "run"   -> EvRun(e)
           [] e.op = "conv"  -> EvConv(e)
           [] e.op = "scen"  -> EvScen(e)
           [] e.op = "equiv" -> EvEquiv(e)
           [] e.op = "disc"  -> EvDisc(e)
           [] e.op = "lin"   -> EvLin(e)
           [] e.op = "eq"    -> EvEq(e)
           [] e.op = "ecs"   -> EvEcs(e)
           \* the owner of a table or dictionary changed it: nothing else changes (FrameFails)
           [] e.op = "tamper" -> <<{}, objs, <<>>, convs, dflt>>
           \* what follows happens in another process: new objects, but the same functions
           [] e.op = "apart" -> <<{}, <<>>, <<>>, convs, dflt>>

Report(e, fails) ==
    fails # {} => PrintT(ToJson([fail |-> fails, trace |-> t, line |-> l + 1, op |-> e.op]))

Next ==
    /\ l < Len(Traces[t])
    /\ LET e == Traces[t][l + 1]
           r == Eval(e)
           ff == IF e.crash = "" /\ e.op # "apart" THEN FrameFails(e, IF "o" \in DOMAIN e THEN e.o ELSE "") ELSE {}
           fr == IF e.op = "tamper" /\ ff # {} THEN {"held"} ELSE ff
       IN /\ Report(e, r[1] \cup fr)
          /\ objs' = r[2]
          /\ runs' = runs \o r[3]
          /\ convs' = r[4]
          /\ dflt' = r[5]
          /\ held' = IF e.crash = "" THEN e.held ELSE held
    /\ l' = l + 1
    /\ UNCHANGED t

Spec == Init /\ [][Next]_tvars

\* the position in the trace determines the state
View == <<t, l>>

\* every event of every trace was consumed
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Total(i - 1) + Len(Traces[i]) + 1
Consumed == TLCGet("stats").distinct = Total(Len(Traces))
=============================================================================
