SPECIFICATION Spec
CONSTANTS
 N = 2
 B = 1
 L = 4
 MaxSteps = 6
 MaxViews = 4
 Fault = "none"
VIEW View
INVARIANT SameBytes SameSizes Inside
