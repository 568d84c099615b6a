SPECIFICATION Spec
CONSTANTS
 Mode = "one"
 Extra = TRUE
 Before = TRUE
 Attempts = 2
 Faults = 1
 Fault = "entry_first"
INVARIANT NothingPartial
INVARIANT EntryLast
INVARIANT Success
PROPERTY NeverLost
