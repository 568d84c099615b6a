SPECIFICATION Spec
CONSTANTS
 Modes = {"manual"}
 NContents = {2}
 MaxSteps = 1
 Bases = {"out", "c", "d", "p1", "p2", "x"}
 SubBases = {}
 Ops = {"concat"}
 MaxCat = 4
 Rule = "good"
INVARIANT Emit
