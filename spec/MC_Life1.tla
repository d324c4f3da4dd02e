------------------------------ MODULE MC_Life1 ------------------------------
EXTENDS Lifecycle
mcKind == [x |-> "TL", y |-> "IR"]
mcKindTT == [x |-> "TL", y |-> "TL"]
mcKindII == [x |-> "IR", y |-> "IR"]
mcKind1 == [x |-> "TL"]
mcKind2 == [y |-> "IR"]
mcDrivers == {<<>>, <<3>>, <<1, 4>>, <<1, 4, 2>>, <<1, 99>>}
mcDriversS == {<<2, 1>>, <<2, 99>>}
mcDriversL == {<<>>, <<3>>, <<1, 4>>, <<1, 3>>, <<1, 4, 2>>, <<1, 4, 2, 5>>, <<1, 99>>, <<99>>}
=============================================================================
