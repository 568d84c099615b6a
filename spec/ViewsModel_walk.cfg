SPECIFICATION Spec
CONSTANTS
 N = 4
 B = 2
 L = 7
 MaxSteps = 9
 MaxViews = 6
 Fault = "none"
INVARIANT Emit
