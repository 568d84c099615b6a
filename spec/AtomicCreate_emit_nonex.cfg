SPECIFICATION Spec
CONSTANTS
 Mode = "none"
 Extra = TRUE
 Before = FALSE
 Attempts = 1
 Faults = 1
 Fault = "none"
INVARIANT Emit
