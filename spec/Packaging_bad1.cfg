SPECIFICATION Spec
CONSTANTS
 Modes = {"one", "two", "none", "manual"}
 NContents = {1}
 MaxSteps = 2
 Bases = {"out", "c", "d", "p1"}
 SubBases = {"out"}
 Ops = {"concat", "prefix", "move", "copy", "remove", "mkdir", "other", "damage", "setloc"}
 MaxCat = 2
 Rule = "locfirst"
VIEW View
INVARIANT Fresh Autonomous Identity
PROPERTY Repackaging OthersStay
