SPECIFICATION SpecStep
CONSTANTS
 Packs = {"m", "d", "c1", "c2"}
 MaxDamage = 1
 Forge = FALSE
 Fault = "nocrc_store"
INVARIANTS
 Detects
 Pristine
 Unharmed
 StructureSame
 ContentSeen
CHECK_DEADLOCK FALSE
