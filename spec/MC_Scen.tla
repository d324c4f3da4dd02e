------------------------------ MODULE MC_Scen ------------------------------
EXTENDS Scenarios
mcRows == {"plain", "milli", "late", "early", "gap", "kelvin", "region", "variable"}
mcAxes == {"yearly", "midyear", "monthly", "twoyear", "daily", "mixed", "backward"}
mcKinds == {"TL", "IR"}
mcPriors == {"new", "used"}
mcAxes3 == {"yearly", "monthly", "backward"}
mcPriors3 == {"used"}
mcRows3 == {"plain", "late", "early", "gap", "kelvin", "variable"}
=============================================================================
