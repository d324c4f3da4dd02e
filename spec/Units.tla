------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* Physical quantities.  A quantity is logged as the magnitude the caller  *)
(* used and the name of the unit; its value is the magnitude times the     *)
(* factor of the unit, an exact rational stated in units.json.  All values *)
(* in the specification are in m, s, W/m^2, W/m^2/K, W/m^2/K^2, K m^2/W,   *)
(* K, and 1 (dimensions "len", "time", "flux", "fb", "fb2", "sens",        *)
(* "temp", "one").                                                         *)
(***************************************************************************)
EXTENDS Fix, Json, IOUtils

LOCAL SpecDir == IF "SPECDIR" \in DOMAIN IOEnv THEN IOEnv.SPECDIR ELSE "."
Units == JsonDeserialize(SpecDir \o "/units.json")

DimOf(u) == Units[u].dim
ToBase(v, u) ==
    IF ~Finite(v) THEN v
    ELSE IF Units[u].num = <<1, 1>> /\ Units[u].den = <<1, 1>> THEN v
    ELSE BDiv(BMul(v, Units[u].num), Units[u].den)

FromBase(v, u) == IF ~Finite(v) THEN v ELSE BDiv(BMul(v, Units[u].den), Units[u].num)

IsUnit(u) == u \in DOMAIN Units

\* multiples of units, which not everything that takes units needs to understand
Multiples == {"10 W/m^2", "100 mW/m^2", "0.5 W/m^2"}
=============================================================================
