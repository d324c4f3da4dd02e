SPECIFICATION Spec
INVARIANTS ConversionRight Equivalent Linear Bounded Settles
PROPERTIES Monotone Budget
CHECK_DEADLOCK FALSE
CONSTANTS
 Pars <- mcPars
 Dts <- mcDts
 Forcings <- mcForcings
 Steps = 5
 Constant = FALSE
