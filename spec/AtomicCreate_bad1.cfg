SPECIFICATION Spec
CONSTANTS
 Mode = "none"
 Extra = TRUE
 Before = TRUE
 Attempts = 2
 Faults = 1
 Fault = "in_place"
INVARIANT NothingPartial
INVARIANT EntryLast
INVARIANT Success
PROPERTY NeverLost
