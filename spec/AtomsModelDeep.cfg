CONSTANTS N = 6
 NB = 3
SPECIFICATION Spec
INVARIANTS Facts
CHECK_DEADLOCK FALSE
