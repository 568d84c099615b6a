SPECIFICATION Spec
CONSTANTS
 Modes = {"two", "none"}
 NContents = {1}
 MaxSteps = 3
 Bases = {"out", "c", "d"}
 SubBases = {"out"}
 Ops = {"concat", "prefix", "move", "remove", "other", "setloc"}
 MaxCat = 2
 Rule = "good"
VIEW View
INVARIANT Fresh Autonomous Identity
PROPERTY Repackaging OthersStay
