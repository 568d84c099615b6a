CONSTANTS
  N1 = 3
  N2 = 2
  KMAX = 0
  Modes = {"r", "none"}
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK FinalSorted UnsortedKept HandlesFinal EmitCase
CHECK_DEADLOCK FALSE
