SPECIFICATION SpecStep
CONSTANTS
 Packs = {"m", "d", "c1", "c2"}
 MaxDamage = 3
 Forge = FALSE
 Fault = "none"
INVARIANTS
 Detects
 Pristine
 Unharmed
 StructureSame
 ContentSeen
CHECK_DEADLOCK FALSE
