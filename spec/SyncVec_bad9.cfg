SPECIFICATION FairSpec
CONSTANTS
 Readers = {"r1", "r2"}
 N = 3
 MaxReads = 1
 MayFail = TRUE
 Fault = "notify_one"
 Emit = FALSE
INVARIANTS
 TypeOK
 Published
 Exact
 Complete
 ErrorOnlyIfDamaged
PROPERTIES
 Monotone
 Ends
CHECK_DEADLOCK FALSE
