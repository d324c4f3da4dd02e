SPECIFICATION SSpec
INVARIANTS PrintEnds EndsRight Complete_ NothingOnFailure ConfigKept TimestepKept AsAlone Reusable
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
 RowKinds <- mcRows
 MaxRows = 2
 Axes <- mcAxes
 Kinds <- mcKinds
 Priors <- mcPriors
