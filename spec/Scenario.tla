----------------------------- MODULE Scenario -----------------------------
(***************************************************************************)
(* Running a set of scenarios.  A table has a time axis and rows           *)
(* [meta, unit, vals]; meta maps column names to text.                     *)
(***************************************************************************)
EXTENDS Model, Calendar

Selected(row, var) == row.meta.variable = var /\ row.meta.region = "World"

\* indices of the rows that are scenarios
RECURSIVE SelFrom(_, _, _)
SelFrom(rows, var, i) ==
    IF i > Len(rows) THEN <<>>
    ELSE IF Selected(rows[i], var) THEN <<i>> \o SelFrom(rows, var, i + 1)
    ELSE SelFrom(rows, var, i + 1)
Sel(rows, var) == SelFrom(rows, var, 1)

\* positions (in the time order ord) at which a row has a value
Points(vals, ord) == SelectSeq(TLCEval([i \in 1..Len(ord) |-> i]), LAMBDA i : vals[ord[i]] # NaN)

Empty(vals, ord) == Points(vals, ord) = <<>>
Gap(vals, ord) == LET p == Points(vals, ord) IN p # <<>> /\ p[Len(p)] - p[1] # Len(p) - 1
WrongUnit(u) == IF IsUnit(u) THEN DimOf(u) # "flux" ELSE TRUE

\* the forcing a scenario is run with
Forcing(row, ord) ==
    LET p == Points(row.vals, ord)
    IN TLCEval([i \in 1..Len(p) |-> ToBase(row.vals[ord[p[i]]], row.unit)])

\* the errors a call may end with; none of them if it must succeed
Faults(tab, var) ==
    LET sel == Sel(tab.rows, var)
        ord == TimeOrder(tab.times)
        ts  == Permute(tab.times, ord)
    IN IF sel = <<>> THEN {"nodata"}
       ELSE (IF TimestepOf(ts) = "none" THEN {"timestep"} ELSE {})
       \cup (IF \E i \in 1..Len(sel) : Gap(tab.rows[sel[i]].vals, ord) THEN {"gap"} ELSE {})
       \cup (IF \E i \in 1..Len(sel) : WrongUnit(tab.rows[sel[i]].unit) THEN {"unit"} ELSE {})
       \cup (IF \E i \in 1..Len(sel) : Empty(tab.rows[sel[i]].vals, ord) THEN {"empty"} ELSE {})

ErrorClass(f) == CASE f = "nodata" -> "ValueError"
                   [] f = "timestep" -> "NotImplementedError"
                   [] f = "gap" -> "NotImplementedError"
                   [] f = "unit" -> "UnitError"
                   [] OTHER -> "Exception"

TimestepValue(ts) == FInt(StepSeconds(TimestepOf(ts)))

\* one scenario: drive, reset, run
RunRow(o, row, ord) == StepAll(Reset(Drive(o, Forcing(row, ord))))

OutVars(kind) ==
    IF kind = "TL" THEN {"Surface Temperature|Upper", "Surface Temperature|Lower", "Heat Uptake"}
    ELSE {"Surface Temperature|Box 1", "Surface Temperature|Box 2", "Surface Temperature", "Heat Uptake"}
OutUnit(v) == IF v = "Heat Uptake" THEN "W/m^2" ELSE "delta_degC"
ModelName(kind) == IF kind = "TL" THEN "two_layer" ELSE "two_timescale_impulse_response"
=============================================================================
