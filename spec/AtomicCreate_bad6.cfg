SPECIFICATION Spec
CONSTANTS
 Mode = "one"
 Extra = FALSE
 Before = TRUE
 Attempts = 2
 Faults = 1
 Fault = "unlink_first"
INVARIANT NothingPartial
INVARIANT EntryLast
INVARIANT Success
PROPERTY NeverLost
