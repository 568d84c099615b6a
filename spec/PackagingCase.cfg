SPECIFICATION Spec
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
CONSTANT Rule = "good"
