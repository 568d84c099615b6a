SPECIFICATION Spec
CONSTANTS
 N = 3
 B = 2
 L = 6
 MaxSteps = 3
 MaxViews = 4
 Fault = "none"
INVARIANT Emit
