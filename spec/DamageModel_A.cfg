SPECIFICATION Spec
CONSTANTS
 Packs = {"m", "d", "c1"}
 MaxDamage = 1
 Forge = FALSE
 Fault = "none"
INVARIANTS
 Detects
 Pristine
 Unharmed
 StructureSame
 ContentSeen
CHECK_DEADLOCK FALSE
