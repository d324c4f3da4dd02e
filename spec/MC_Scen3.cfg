SPECIFICATION SSpec
INVARIANTS PrintEnds EndsRight Complete_ NothingOnFailure ConfigKept TimestepKept AsAlone Reusable
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
 RowKinds <- mcRows3
 MaxRows = 3
 Axes <- mcAxes3
 Kinds <- mcKinds
 Priors <- mcPriors3
