SPECIFICATION Spec
CONSTANT Quiet = TRUE
INVARIANT Sound
CHECK_DEADLOCK FALSE
