SPECIFICATION FairSpec
CONSTANTS
 Readers = {"r1"}
 N = 2
 MaxReads = 1
 MayFail = TRUE
 Fault = "no_end"
 Emit = FALSE
INVARIANTS
 TypeOK
 Published
 Exact
 Complete
 ErrorOnlyIfDamaged
PROPERTIES
 Monotone
 Ends
CHECK_DEADLOCK FALSE
