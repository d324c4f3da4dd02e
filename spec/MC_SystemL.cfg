SPECIFICATION Spec
INVARIANTS RoundTrip Connected
PROPERTIES AsMeant SlotMeant ScenAsAlone RightEnd ConfigKept ConvPure Isolated SlotKept Refusal
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
 Objs = {"x","y"}
 KindOf <- mcKind
 Sets = {"good","month","nodata","axis","unit2","gap2"}
 MaxGen = 2
 MaxChanges = 2
ACTION_CONSTRAINT PrintEdge
