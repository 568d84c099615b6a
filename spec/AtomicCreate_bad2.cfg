SPECIFICATION Spec
CONSTANTS
 Mode = "two"
 Extra = FALSE
 Before = TRUE
 Attempts = 2
 Faults = 1
 Fault = "rename_early"
INVARIANT NothingPartial
INVARIANT EntryLast
INVARIANT Success
PROPERTY NeverLost
