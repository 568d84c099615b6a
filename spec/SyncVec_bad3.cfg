SPECIFICATION Spec
CONSTANTS
 Readers = {"r1"}
 N = 2
 MaxReads = 1
 MayFail = FALSE
 Fault = "slice_total"
 Emit = FALSE
INVARIANTS
 TypeOK
 Published
 Exact
 Complete
 ErrorOnlyIfDamaged
PROPERTIES
 Monotone
CHECK_DEADLOCK FALSE
