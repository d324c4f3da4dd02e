SPECIFICATION Spec
INVARIANTS CivilRight YearlyAxis MonthlyAxis
CHECK_DEADLOCK FALSE
CONSTANTS
 FirstYear = 1895
 LastYear = 2005
