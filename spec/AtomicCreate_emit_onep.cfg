SPECIFICATION Spec
CONSTANTS
 Mode = "one"
 Extra = FALSE
 Before = TRUE
 Attempts = 1
 Faults = 1
 Fault = "none"
INVARIANT Emit
