SPECIFICATION Spec
CONSTANTS
 Mode = "two"
 Extra = FALSE
 Before = TRUE
 Attempts = 1
 Faults = 1
 Fault = "none"
INVARIANT Emit
