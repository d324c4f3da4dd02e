SPECIFICATION Spec
INVARIANTS OutputsUpToK HistoryIndependent Causal Budget NoDriverNoReset
PROPERTIES Isolated AssignFrame ErrorFrame WriteOnce
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 Objs = {"x","y"}
 KindOf <- mcKindII
 Drivers <- mcDriversS
 MaxChanges = 1
ACTION_CONSTRAINT PrintEdge
