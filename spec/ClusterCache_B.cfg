SPECIFICATION FairSpec
CONSTANTS
 Readers = {"r1", "r2"}
 Clusters = {1, 2}
 Slots = {1, 2}
 MaxReads = 1
 Fault = "none"
 Emit = FALSE
INVARIANTS
 TypeOK
 Own
 OnePack
PROPERTIES
 Ends
CHECK_DEADLOCK FALSE
