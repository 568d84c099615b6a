SPECIFICATION Spec
CONSTANTS
 Readers = {"r1", "r2", "r3"}
 N = 3
 MaxReads = 2
 MayFail = TRUE
 Fault = "none"
 Emit = TRUE
INVARIANTS
 TypeOK
 Published
 Exact
 Complete
 ErrorOnlyIfDamaged
 Emitted
CHECK_DEADLOCK FALSE
