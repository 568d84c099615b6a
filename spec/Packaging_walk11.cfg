SPECIFICATION Spec
CONSTANTS
 Modes = {"one", "two", "none", "manual"}
 NContents = {1, 2, 3}
 MaxSteps = 4
 Bases = {"out", "c", "d", "p1", "p2", "p3", "x"}
 SubBases = {"out", "x"}
 Ops = {"concat", "prefix", "move", "copy", "remove", "mkdir", "other", "damage", "setloc"}
 MaxCat = 2
 Rule = "good"
INVARIANT Emit
