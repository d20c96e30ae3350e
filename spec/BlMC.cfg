INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  MaxViews = 2
  Qs = {0, 3}
  Taus = {1, 8}
  Confs = {2, 6}
INVARIANTS Emit ClosedForm AnyOrder PrecisionForm Definite Fraction
PROPERTIES NeverLessCertain TowardsTheView
