SPECIFICATION SpecStep
CONSTANTS
 Packs = {"m", "d", "c1", "c2"}
 MaxDamage = 2
 Forge = TRUE
 Fault = "none"
INVARIANTS
 Detects
 Pristine
 Unharmed
 StructureSame
 ContentSeen
CHECK_DEADLOCK FALSE
