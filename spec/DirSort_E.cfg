CONSTANTS
  N1 = 5
  N2 = 0
  KMAX = 0
  Modes = {"r"}
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS FailsOnlyIfImpossible TypeOK FinalSorted UnsortedKept HandlesFinal EmitCase
PROPERTY Terminates
CHECK_DEADLOCK FALSE
