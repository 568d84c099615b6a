SPECIFICATION Spec
CONSTANTS
 Mode = "one"
 Extra = TRUE
 Before = TRUE
 Attempts = 2
 Faults = 2
 Fault = "none"
INVARIANT NothingPartial
INVARIANT EntryLast
INVARIANT Success
PROPERTY NeverLost
PROPERTY Ends
