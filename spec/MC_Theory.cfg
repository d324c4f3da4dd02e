SPECIFICATION Spec
INVARIANTS ConversionRight Equivalent Linear Bounded Settles
PROPERTIES Monotone Budget
CHECK_DEADLOCK FALSE
CONSTANTS
 Pars <- mcParsQ
 Dts <- mcDts
 Forcings <- mcForcings
 Steps = 4
 Constant = FALSE
