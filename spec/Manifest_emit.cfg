SPECIFICATION Spec
CONSTANTS
 NPacks = 3
 Locs = {"empty", "short", "utf8", "max", "maxutf8", "path"}
 MaxSteps = 2
 Fault = "none"
INVARIANT BlocksVerify GlobalVerifies OnlyThatLocation OldLocationTold Emit
