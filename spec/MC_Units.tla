------------------------------ MODULE MC_Units ------------------------------
(* Every quantity can be expressed in every unit of its dimension and back, *)
(* and the order in which it passes through units does not matter.          *)
EXTENDS Units
VARIABLES u, v, x
Mags == {FInt(1), FRat(7, 3), FRat(-41, 1000), F0}
Near12(a, b) == FLe(FAbs(FSub(a, b)), FAdd(FMul(FTiny(3), FAbs(a)), FTiny(6)))
Init == u \in DOMAIN Units /\ v = u /\ x \in Mags
Next == \E w \in DOMAIN Units \ {u} : DimOf(w) = DimOf(v) /\ v = u
            /\ v' = w /\ x' = FromBase(ToBase(x, v), w) /\ UNCHANGED u
Spec == Init /\ [][Next]_<<u, v, x>>
SameQuantity == [][Near12(ToBase(x, v), ToBase(x', v'))]_<<u, v, x>>
RoundTrip == [][Near12(x, FromBase(ToBase(x', v'), v))]_<<u, v, x>>
Positive == FLt(F0, ToBase(FInt(1), u)) /\ DimOf(v) = DimOf(u)
\* a sign never changes, and zero is zero in every unit (differences, not levels)
ZeroIsZero == [][(x = F0) = (x' = F0)]_<<u, v, x>>
=============================================================================
