----------------------------- MODULE MC_System -----------------------------
EXTENDS System
mcKind == [x |-> "TL", y |-> "IR"]
=============================================================================
