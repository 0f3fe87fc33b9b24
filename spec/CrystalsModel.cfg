CONSTANTS N = 3
 L = 3
 K = 2
SPECIFICATION Spec
INVARIANTS Closed Inverse Weights1 SameDomain Reads
CHECK_DEADLOCK FALSE
