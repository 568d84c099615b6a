CONSTANTS
  N = 5
  K = 3
SPECIFICATION Spec
INVARIANTS InWindow BinOk LinOk Agree Excluded
PROPERTY Done
CHECK_DEADLOCK FALSE
