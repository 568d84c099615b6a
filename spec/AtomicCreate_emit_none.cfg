SPECIFICATION Spec
CONSTANTS
 Mode = "none"
 Extra = FALSE
 Before = FALSE
 Attempts = 1
 Faults = 1
 Fault = "none"
INVARIANT Emit
