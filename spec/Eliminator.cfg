SPECIFICATION Spec
CONSTANT Quiet = TRUE
INVARIANT Agree
CHECK_DEADLOCK FALSE
