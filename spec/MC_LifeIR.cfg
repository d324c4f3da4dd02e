SPECIFICATION Spec
INVARIANTS OutputsUpToK HistoryIndependent Causal Budget NoDriverNoReset
PROPERTIES Isolated AssignFrame ErrorFrame WriteOnce
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 Objs = {"y"}
 KindOf <- mcKind2
 Drivers <- mcDrivers
 MaxChanges = 1
ACTION_CONSTRAINT PrintEdge
