SPECIFICATION Spec
CONSTANTS
 Mode = "two"
 Extra = FALSE
 Before = TRUE
 Attempts = 2
 Faults = 1
 Fault = "entry_first"
INVARIANT NothingPartial
INVARIANT EntryLast
INVARIANT Success
PROPERTY NeverLost
