SPECIFICATION Spec
CONSTANTS
 N = 2
 B = 0
 L = 3
 MaxSteps = 4
 MaxViews = 3
 Fault = "none"
VIEW View
INVARIANT SameBytes SameSizes Inside
