INIT Init
NEXT Next
INVARIANT SameAsPure
INVARIANT Laws
