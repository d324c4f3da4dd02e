SPECIFICATION Spec
INVARIANTS RoundTrip Connected
PROPERTIES AsMeant SlotMeant ScenAsAlone RightEnd ConfigKept ConvPure Isolated SlotKept Refusal
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 Objs = {"x","y"}
 KindOf <- mcKind
 Sets = {"good","unit2"}
 MaxGen = 2
 MaxChanges = 1
ACTION_CONSTRAINT PrintEdge
