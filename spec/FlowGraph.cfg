SPECIFICATION Spec
CONSTANT Quiet = TRUE
INVARIANT WalkOK
CHECK_DEADLOCK FALSE
