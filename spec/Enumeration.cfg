SPECIFICATION Spec
CONSTANT Quiet = TRUE
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
