SPECIFICATION Spec
CONSTANTS
 Mode = "none"
 Extra = FALSE
 Before = TRUE
 Attempts = 1
 Faults = 1
 Fault = "none"
INVARIANT Emit
