CONSTANTS
  N1 = 4
  N2 = 0
  KMAX = 1
  Modes = {"r", "cr", "rc"}
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK FinalSorted UnsortedKept HandlesFinal EmitCase
CHECK_DEADLOCK FALSE
