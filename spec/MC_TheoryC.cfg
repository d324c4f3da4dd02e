SPECIFICATION Spec
INVARIANTS ConversionRight Equivalent Linear Bounded Settles
PROPERTIES Monotone Budget
CHECK_DEADLOCK FALSE
CONSTANTS
 Pars <- mcParsC
 Dts <- mcDtsC
 Forcings <- mcForcingsC
 Steps = 600
 Constant = TRUE
