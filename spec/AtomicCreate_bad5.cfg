SPECIFICATION Spec
CONSTANTS
 Mode = "one"
 Extra = FALSE
 Before = TRUE
 Attempts = 2
 Faults = 1
 Fault = "swallow"
INVARIANT NothingPartial
INVARIANT EntryLast
INVARIANT Success
PROPERTY NeverLost
