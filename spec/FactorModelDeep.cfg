SPECIFICATION Spec
CONSTANTS R = 4 Rows = 2 Extra = 1
INVARIANTS Pruned Symmetric
CHECK_DEADLOCK FALSE
