SPECIFICATION Spec
CONSTANTS
 Modes = {"one", "two", "none", "manual"}
 NContents = {0, 1, 2}
 MaxSteps = 1
 Bases = {"out", "c", "d", "p1", "p2", "x"}
 SubBases = {"out", "x"}
 Ops = {"concat", "prefix", "move", "copy", "remove", "mkdir", "other", "damage", "setloc"}
 MaxCat = 4
 Rule = "good"
VIEW View
INVARIANT Fresh Autonomous Identity
PROPERTY Repackaging OthersStay
