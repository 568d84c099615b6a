CONSTANTS
  N1 = 2
  N2 = 2
  KMAX = 1
  Modes = {"r", "none"}
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS FailsOnlyIfImpossible TypeOK FinalSorted UnsortedKept HandlesFinal EmitCase
PROPERTY Terminates
CHECK_DEADLOCK FALSE
