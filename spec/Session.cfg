SPECIFICATION Spec
CONSTANT Quiet = TRUE
INVARIANT Consistent
CHECK_DEADLOCK FALSE
