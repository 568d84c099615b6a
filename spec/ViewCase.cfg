SPECIFICATION Spec
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
CONSTANT Fault = "none"
