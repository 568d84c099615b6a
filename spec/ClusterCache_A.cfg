SPECIFICATION Spec
CONSTANTS
 Readers = {"r1", "r2"}
 Clusters = {1, 2, 3}
 Slots = {1, 2}
 MaxReads = 2
 Fault = "none"
 Emit = FALSE
INVARIANTS
 TypeOK
 Own
 OnePack
PROPERTIES
 PackStays
CHECK_DEADLOCK FALSE
