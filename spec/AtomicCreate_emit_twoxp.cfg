SPECIFICATION Spec
CONSTANTS
 Mode = "two"
 Extra = TRUE
 Before = TRUE
 Attempts = 1
 Faults = 1
 Fault = "none"
INVARIANT Emit
