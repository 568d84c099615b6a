SPECIFICATION Spec
CONSTANTS
 Mode = "one"
 Extra = TRUE
 Before = TRUE
 Attempts = 1
 Faults = 1
 Fault = "none"
INVARIANT Emit
