CONSTANTS
  BASE = 4
  W = 2
  ROWS = 3
  STRLEN = 3
  FIXMAX = 2
SPECIFICATION Spec
INVARIANTS IntRoundTrip ArrayRoundTrip SameOrder
CHECK_DEADLOCK FALSE
