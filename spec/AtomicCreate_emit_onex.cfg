SPECIFICATION Spec
CONSTANTS
 Mode = "one"
 Extra = TRUE
 Before = FALSE
 Attempts = 1
 Faults = 1
 Fault = "none"
INVARIANT Emit
