SPECIFICATION Spec
CONSTANTS N = 3 MaxSize = 4
INVARIANTS Tables Counts
CHECK_DEADLOCK FALSE
