SPECIFICATION Spec
CONSTANTS
 NPacks = 3
 Locs = {"a", "b"}
 MaxSteps = 4
 Fault = "none"
INVARIANT BlocksVerify GlobalVerifies OnlyThatLocation OldLocationTold 
