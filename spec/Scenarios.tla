----------------------------- MODULE Scenarios -----------------------------
(***************************************************************************)
(* run_scenarios as the sequence of steps it takes: select the rows,       *)
(* choose the timestep, then for each scenario check, drive, reset, run    *)
(* and collect; any step may end the call with an error.                   *)
(***************************************************************************)
EXTENDS Tables, Json

CONSTANTS RowKinds, MaxRows, Axes, Kinds, Priors

VARIABLES tab, pc, i, m, m0, out, err
svars == <<tab, pc, i, m, m0, out, err>>

Tables == {[times |-> Axis(a), rows |-> [j \in 1..Len(ks) |-> Row(ks[j], j)], axis |-> a, kinds |-> ks] :
            a \in Axes, ks \in UNION {[1..q -> RowKinds] : q \in 0..MaxRows}}

\* the model before the call: new, or left behind by earlier use with another timestep
Prior(kind, p) ==
    IF p = "new" THEN Fresh(kind, Par0(kind), Dt0)
    ELSE StepAll(Reset(Drive(Fresh(kind, Par0(kind), Dt1), <<FInt(5), FInt(5), FInt(5)>>)))

SInit ==
    /\ tab \in Tables
    /\ pc = "select" /\ i = 0 /\ out = <<>> /\ err = {}
    /\ \E k \in Kinds, p \in Priors : m = Prior(k, p)
    /\ m0 = m

Ord == TimeOrder(tab.times)
Ts == Permute(tab.times, Ord)
Chosen == Sel(tab.rows, Var)
Fail(f) == pc' = "fail" /\ err' = f /\ UNCHANGED <<tab, i, m0>>
Go(p) == pc' = p /\ UNCHANGED <<tab, err, m0>>

Select ==
    /\ pc = "select"
    /\ IF Chosen = <<>> THEN Fail({"ValueError"}) /\ UNCHANGED <<m, out>>
       ELSE Go("timestep") /\ UNCHANGED <<i, m, out>>
ChooseTimestep ==
    /\ pc = "timestep"
    /\ IF TimestepOf(Ts) = "none" THEN Fail({"NotImplementedError"}) /\ UNCHANGED <<m, out>>
       ELSE Go("row") /\ i' = 1 /\ m' = SetDt(m, TimestepValue(Ts)) /\ UNCHANGED out
DoRow ==
    /\ pc = "row" /\ i <= Len(Chosen)
    /\ LET row == tab.rows[Chosen[i]]
       IN IF Gap(row.vals, Ord) THEN Fail({"NotImplementedError"}) /\ out' = <<>> /\ UNCHANGED m
          ELSE IF WrongUnit(row.unit) THEN Fail({"UnitError"}) /\ out' = <<>> /\ UNCHANGED m
          ELSE LET r == RunRow(m, row, Ord)
               IN m' = r /\ i' = i + 1 /\ Go("row")
                  /\ out' = Append(out, [row |-> Chosen[i], at |-> Points(row.vals, Ord), run |-> RunOf(r)])
Finish == pc = "row" /\ i > Len(Chosen) /\ Go("done") /\ UNCHANGED <<i, m, out>>

SNext == Select \/ ChooseTimestep \/ DoRow \/ Finish
SSpec == SInit /\ [][SNext]_svars /\ WF_svars(SNext)

-----------------------------------------------------------------------------
\* the call ends with a result exactly when nothing is wrong with the table
EndsRight ==
    /\ pc = "done" => Faults(tab, Var) = {}
    /\ pc = "fail" => \E f \in Faults(tab, Var) : err = {ErrorClass(f)}
Complete_ == pc = "done" =>
    /\ [j \in 1..Len(out) |-> out[j].row] = Chosen
    /\ \A j \in 1..Len(out) : Len(out[j].run.A) = Len(out[j].at)
NothingOnFailure == pc = "fail" => out = <<>>
ConfigKept == m.par = m0.par /\ (pc = "fail" /\ err \cap {"ValueError"} # {} => m = m0)
TimestepKept == /\ pc = "fail" /\ "timestep" \in Faults(tab, Var) => m = m0
                /\ pc = "done" => m.dt = TimestepValue(Ts)
\* each scenario's result is that of running it alone, on a new model
AsAlone == \A j \in 1..Len(out) :
    LET s == Solo(m0.kind, m0.par, TimestepValue(Ts), Forcing(tab.rows[out[j].row], Ord))
    IN out[j].run.A = s.A /\ out[j].run.B = s.B /\ out[j].run.R = s.R
\* a failed call leaves a model that gives the results of a new one
Reusable == pc = "fail" =>
    LET d == <<FInt(1), FInt(2)>>
        s == Solo(m0.kind, m0.par, Dt0, d)
        r == StepAll(Reset(Drive(SetDt(m, Dt0), d)))
    IN r.A = s.A /\ r.B = s.B /\ r.R = s.R
Terminates == <>(pc \in {"done", "fail"})

\* the calls, for replay on the real models
PrintCall == PrintT(ToJson([tab |-> tab, kind |-> m0.kind, end |-> pc, err |-> err,
                            prior |-> IF m0.drv = <<NaN>> THEN "new" ELSE "used"]))
PrintEnds == pc \in {"done", "fail"} => PrintCall
=============================================================================
