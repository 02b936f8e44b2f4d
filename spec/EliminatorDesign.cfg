SPECIFICATION Spec
CONSTANTS
  N = 4
  Regs = {1, 2}
INVARIANT Sound
INVARIANT CopiesAreCopies
INVARIANT Filed
CHECK_DEADLOCK FALSE
