CONSTANTS N = 4
 NB = 3
SPECIFICATION Spec
INVARIANTS Facts
CHECK_DEADLOCK FALSE
