CONSTANTS N = 5
SPECIFICATION Spec
INVARIANTS Facts
CHECK_DEADLOCK FALSE
