------------------------------ MODULE Examples ------------------------------
(* Parameters used in the exhaustively explored configurations.            *)
EXTENDS Model

\* a fast and coarse world: heat capacities of the order of the flux times the timestep
Par0(kind) ==
    IF kind = "TL"
    THEN [du |-> FRat(50, 1), dl |-> FRat(200, 1), lambda0 |-> FRat(5, 4), a |-> FRat(1, 50),
          efficacy |-> FRat(6, 5), eta |-> FRat(4, 5)]
    ELSE [q1 |-> FRat(3, 10), q2 |-> FRat(2, 5), d1 |-> FInt(284018400), d2 |-> FInt(1893456000),
          efficacy |-> FRat(6, 5)]
Dt0 == FInt(31557600)
Knob(kind) == IF kind = "TL" THEN "lambda0" ELSE "q1"
Alt(kind) == IF kind = "TL" THEN FRat(7, 4) ELSE FRat(1, 2)
Dt1 == FInt(15778800)
=============================================================================
