CONSTANTS
  N1 = 2
  N2 = 2
  KMAX = 1
  Modes = {"r", "cr", "rc", "none"}
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK FinalSorted UnsortedKept HandlesFinal EmitCase
CHECK_DEADLOCK FALSE
