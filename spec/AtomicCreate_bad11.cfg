SPECIFICATION Spec
CONSTANTS
 Mode = "two"
 Extra = TRUE
 Before = TRUE
 Attempts = 2
 Faults = 1
 Fault = "short_ignored"
INVARIANT NothingPartial
INVARIANT EntryLast
INVARIANT Success
PROPERTY NeverLost
