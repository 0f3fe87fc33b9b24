SPECIFICATION Spec
CONSTANTS N = 2 MaxSize = 4
INVARIANTS Tables Counts
CHECK_DEADLOCK FALSE
