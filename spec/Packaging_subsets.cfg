SPECIFICATION Spec
CONSTANTS
 Modes = {"manual", "two"}
 NContents = {3}
 MaxSteps = 3
 Bases = {"out", "c", "d", "p1", "p2", "p3"}
 SubBases = {}
 Ops = {"remove", "mkdir", "other", "copy"}
 MaxCat = 1
 Rule = "good"
INVARIANT EmitAll
CONSTRAINT InOrder
