CONSTANTS
  BASE = 4
  W = 3
  ROWS = 2
  STRLEN = 3
  FIXMAX = 2
SPECIFICATION Spec
INVARIANTS IntRoundTrip ArrayRoundTrip SameOrder
CHECK_DEADLOCK FALSE
