CONSTANTS
  N1 = 3
  N2 = 2
  KMAX = 0
  Modes = {"r", "none"}
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK FinalSorted UnsortedKept HandlesFinal EmitCase
PROPERTY Terminates
CHECK_DEADLOCK FALSE
