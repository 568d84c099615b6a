SPECIFICATION Spec
CONSTANTS
 Readers = {"r1", "r2"}
 Clusters = {1, 2}
 Slots = {1, 2}
 MaxReads = 2
 Fault = "by_slot"
 Emit = FALSE
INVARIANTS
 TypeOK
 Own
 OnePack

CHECK_DEADLOCK FALSE
