SPECIFICATION Spec
CONSTANTS
 Readers = {"r1", "r2"}
 Clusters = {1, 2}
 Slots = {1, 2}
 MaxReads = 2
 Fault = "no_count"
 Emit = FALSE
INVARIANTS
 TypeOK
 Own
 OnePack

CHECK_DEADLOCK FALSE
