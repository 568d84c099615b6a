SPECIFICATION Spec
CONSTANTS
 N = 3
 B = 2
 L = 6
 MaxSteps = 4
 MaxViews = 3
 Fault = "cutabs"
VIEW View
INVARIANT SameBytes SameSizes Inside
