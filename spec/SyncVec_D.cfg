SPECIFICATION Spec
CONSTANTS
 Readers = {"r1", "r2", "r3"}
 N = 3
 MaxReads = 1
 MayFail = TRUE
 Fault = "none"
 Emit = FALSE
INVARIANTS
 TypeOK
 Published
 Exact
 Complete
 ErrorOnlyIfDamaged
PROPERTIES
 Monotone
CHECK_DEADLOCK FALSE
