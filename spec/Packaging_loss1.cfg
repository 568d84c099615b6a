SPECIFICATION Spec
CONSTANTS
 Modes = {"one", "two", "none", "manual"}
 NContents = {1, 2}
 MaxSteps = 1
 Bases = {"out", "c", "d", "p1", "p2"}
 SubBases = {"out"}
 Ops = {"remove", "mkdir", "other", "damage", "move"}
 MaxCat = 1
 Rule = "good"
INVARIANT Emit
