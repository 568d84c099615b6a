SPECIFICATION Spec
CONSTANTS
 NPacks = 2
 Locs = {"a", "b"}
 MaxSteps = 2
 Fault = "nocrc"
INVARIANT BlocksVerify GlobalVerifies OnlyThatLocation OldLocationTold 
