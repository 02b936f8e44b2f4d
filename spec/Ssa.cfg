SPECIFICATION Spec
CONSTANT Quiet = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Defined
POSTCONDITION Explored
