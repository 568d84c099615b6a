CONSTANTS
  N1 = 4
  N2 = 0
  KMAX = 1
  Modes = {"r", "cr", "rc"}
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK FinalSorted UnsortedKept HandlesFinal EmitCase
PROPERTY Terminates
CHECK_DEADLOCK FALSE
