SPECIFICATION Spec
CONSTANT Quiet = TRUE
CHECK_DEADLOCK FALSE
