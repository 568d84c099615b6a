SPECIFICATION Spec
CONSTANTS
 Readers = {"r1", "r2", "r3"}
 Clusters = {1, 2, 3}
 Slots = {1, 2}
 MaxReads = 2
 Fault = "none"
 Emit = TRUE
INVARIANTS
 TypeOK
 Own
 OnePack
 Emitted
CHECK_DEADLOCK FALSE
