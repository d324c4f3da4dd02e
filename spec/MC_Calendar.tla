---------------------------- MODULE MC_Calendar ----------------------------
(* Walks the calendar day by day and month by month, and checks the        *)
(* timestep chosen for the axes that start there.                          *)
EXTENDS Calendar
CONSTANTS FirstYear, LastYear
VARIABLES y, m, d, n
Leap(q) == (q % 4 = 0 /\ q % 100 # 0) \/ q % 400 = 0
MLen(q, p) == IF p = 2 THEN IF Leap(q) THEN 29 ELSE 28
              ELSE IF p \in {4, 6, 9, 11} THEN 30 ELSE 31
\* day number of 1 January, counted from 1970 one year at a time
RECURSIVE Jan1(_)
Jan1(q) == IF q = 1970 THEN 0
           ELSE IF q > 1970 THEN Jan1(q - 1) + (IF Leap(q - 1) THEN 366 ELSE 365)
           ELSE Jan1(q + 1) - (IF Leap(q) THEN 366 ELSE 365)
RECURSIVE DayNo(_, _, _)
DayNo(q, p, e) == IF p = 1 THEN Jan1(q) + e - 1 ELSE DayNo(q, p - 1, e) + MLen(q, p - 1)
Init == y = FirstYear /\ m = 1 /\ d = 1 /\ n = Jan1(FirstYear)
Next == /\ y <= LastYear
        /\ n' = n + 1
        /\ IF d < MLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y
                ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_<<y, m, d, n>>
CivilRight == Civil(n) = <<y, m, d>>
AddY(k) == <<DayNo(y + k, m, IF d = 29 /\ m = 2 THEN 28 ELSE d), 0>>
YearlyAxis == (d \in {1, 15, 29, 31}) =>
    /\ TimestepOf([k \in 1..4 |-> AddY(k - 1)]) = "yr"
    /\ TimestepOf(<<AddY(0), AddY(1), AddY(3)>>) = "none"
    /\ TimestepOf(<<AddY(0), AddY(2)>>) = "none"
MonthOf(k) == LET t == m - 1 + k IN <<y + (t \div 12), 1 + (t % 12)>>
AddM(k) == LET q == MonthOf(k) IN <<DayNo(q[1], q[2], d), 43200>>
MonthlyAxis == d \in {1, 15, 28} =>
    /\ TimestepOf([k \in 1..14 |-> AddM(k - 1)]) = "month"
    /\ TimestepOf([k \in 1..2 |-> AddM(k - 1)]) = "month"      \* also across a new year
    /\ TimestepOf(<<AddM(0), AddM(1), AddM(3)>>) = "none"
    /\ TimestepOf([k \in 1..5 |-> <<n + k, 0>>]) = "none"
    /\ TimestepOf(<<<<n, 0>>, <<n + 31, 3600>>>>) = (IF Year(<<n, 0>>) # Year(<<n + 31, 0>>) THEN "yr" ELSE "none")
    /\ TimestepOf(<<<<n, 3600>>, <<n + 28, 0>>>>) = "none"
    /\ TimestepOf(<<<<n, 7>>>>) = "yr"
=============================================================================
