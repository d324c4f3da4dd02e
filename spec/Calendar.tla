----------------------------- MODULE Calendar -----------------------------
(***************************************************************************)
(* Time axes.  A time point is <<d, s>>: day number (0 is 1970-01-01) and  *)
(* second of the day, in the proleptic Gregorian calendar.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* year, month and day of a day number
Civil(day) ==
    LET z   == day + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
        doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
        mp  == (5 * doy + 2) \div 153
        dd  == doy - ((153 * mp + 2) \div 5) + 1
        mm  == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN <<yoe + era * 400 + (IF mm <= 2 THEN 1 ELSE 0), mm, dd>>

Year(t) == Civil(t[1])[1]

Before(t, u) == t[1] < u[1] \/ (t[1] = u[1] /\ t[2] < u[2])

\* the order in which the points of an axis follow each other
TimeOrder(ts) ==
    SortSeq(TLCEval([i \in 1..Len(ts) |-> i]), LAMBDA i, j : Before(ts[i], ts[j]))
Permute(s, ord) == TLCEval([i \in 1..Len(ord) |-> s[ord[i]]])

\* u - t compared with n days
Longer(t, u, n) == u[1] - t[1] > n \/ (u[1] - t[1] = n /\ u[2] > t[2])
AtLeast(t, u, n) == u[1] - t[1] > n \/ (u[1] - t[1] = n /\ u[2] >= t[2])

Yearly(ts) == \A i \in 1..(Len(ts) - 1) :
    Year(ts[i + 1]) = Year(ts[i]) + 1 /\ Longer(ts[i], ts[i + 1], 31)
Monthly(ts) == \A i \in 1..(Len(ts) - 1) :
    AtLeast(ts[i], ts[i + 1], 28) /\ ~Longer(ts[i], ts[i + 1], 31)

\* the timestep of a (sorted) time axis: "yr", "month" or none
TimestepOf(ts) == IF Yearly(ts) THEN "yr" ELSE IF Monthly(ts) THEN "month" ELSE "none"
StepSeconds(u) == IF u = "yr" THEN 31557600 ELSE 2629800
=============================================================================
