SPECIFICATION Spec
CONSTANTS
 NPacks = 2
 Locs = {"a", "b"}
 MaxSteps = 2
 Fault = "neighbour"
INVARIANT BlocksVerify GlobalVerifies OnlyThatLocation OldLocationTold 
