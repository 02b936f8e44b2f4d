SPECIFICATION CkSpec
CONSTANT Quiet = TRUE
CHECK_DEADLOCK FALSE
POSTCONDITION Explored
