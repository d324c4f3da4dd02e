------------------------------- MODULE Tables -------------------------------
(* The rows and time axes of the tables used in explored configurations.    *)
EXTENDS Scenario, Examples

Var == "Effective Radiative Forcing"
Meta(v, r, n) == [variable |-> v, region |-> r, scenario |-> n]
Name(n) == <<"s1", "s2", "s3">>[n]
N == NaN
\* the rows a table may have, as values on a four-point axis
Row(k, n) ==
    CASE k = "plain"    -> [meta |-> Meta(Var, "World", Name(n)), unit |-> "W/m^2", vals |-> <<FInt(1), FInt(n), FInt(2), FInt(3)>>]
      [] k = "milli"    -> [meta |-> Meta(Var, "World", Name(n)), unit |-> "mW/m^2", vals |-> <<FInt(1000), FInt(4000), FInt(2000), FInt(0)>>]
      [] k = "late"     -> [meta |-> Meta(Var, "World", Name(n)), unit |-> "W/m^2", vals |-> <<N, N, FInt(2), FInt(3)>>]
      [] k = "early"    -> [meta |-> Meta(Var, "World", Name(n)), unit |-> "W/m^2", vals |-> <<FInt(1), FInt(-4), FInt(2), N>>]
      [] k = "gap"      -> [meta |-> Meta(Var, "World", Name(n)), unit |-> "W/m^2", vals |-> <<FInt(1), N, FInt(2), FInt(3)>>]
      [] k = "kelvin"   -> [meta |-> Meta(Var, "World", Name(n)), unit |-> "K", vals |-> <<FInt(1), FInt(2), FInt(2), FInt(3)>>]
      [] k = "region"   -> [meta |-> Meta(Var, "World|Land", Name(n)), unit |-> "W/m^2", vals |-> <<FInt(9), FInt(9), FInt(9), FInt(9)>>]
      [] k = "variable" -> [meta |-> Meta(Var \o "|Solar", "World", Name(n)), unit |-> "W/m^2", vals |-> <<FInt(8), FInt(8), N, FInt(8)>>]
Axis(a) ==
    CASE a = "yearly"   -> <<<<0, 0>>, <<365, 0>>, <<730, 0>>, <<1096, 0>>>>
      [] a = "midyear"  -> <<<<182, 0>>, <<547, 0>>, <<912, 43200>>, <<1278, 0>>>>
      [] a = "monthly"  -> <<<<304, 0>>, <<334, 0>>, <<365, 0>>, <<396, 0>>>>
      [] a = "twoyear"  -> <<<<0, 0>>, <<365, 0>>, <<1096, 0>>, <<1461, 0>>>>
      [] a = "daily"    -> <<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>>>
      [] a = "mixed"    -> <<<<334, 0>>, <<365, 0>>, <<730, 0>>, <<1096, 0>>>>
      [] a = "backward" -> <<<<1096, 0>>, <<730, 0>>, <<365, 0>>, <<0, 0>>>>
=============================================================================
