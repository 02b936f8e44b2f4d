SPECIFICATION Spec
CONSTANT Quiet = FALSE
INVARIANT Correct
CHECK_DEADLOCK FALSE
