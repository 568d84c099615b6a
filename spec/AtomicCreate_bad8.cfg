SPECIFICATION Spec
CONSTANTS
 Mode = "none"
 Extra = FALSE
 Before = TRUE
 Attempts = 2
 Faults = 1
 Fault = "rename_ignored"
INVARIANT NothingPartial
INVARIANT EntryLast
INVARIANT Success
PROPERTY NeverLost
