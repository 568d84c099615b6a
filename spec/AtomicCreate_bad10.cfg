SPECIFICATION Spec
CONSTANTS
 Mode = "one"
 Extra = FALSE
 Before = TRUE
 Attempts = 2
 Faults = 1
 Fault = "persist_on_drop"
INVARIANT NothingPartial
INVARIANT EntryLast
INVARIANT Success
PROPERTY NeverLost
