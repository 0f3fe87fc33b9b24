CONSTANTS N = 6
SPECIFICATION Spec
INVARIANTS Facts
CHECK_DEADLOCK FALSE
