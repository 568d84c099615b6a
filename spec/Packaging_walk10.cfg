SPECIFICATION Spec
CONSTANTS
 Modes = {"one", "two", "none", "manual"}
 NContents = {0, 1, 2, 3}
 MaxSteps = 4
 Bases = {"out", "c", "d", "p1", "p2", "p3", "x"}
 SubBases = {"out", "x"}
 Ops = {"concat", "prefix", "move", "copy", "setloc"}
 MaxCat = 3
 Rule = "good"
INVARIANT Emit
