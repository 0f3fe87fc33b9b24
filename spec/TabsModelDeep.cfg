CONSTANTS N = 4
 M = 2
SPECIFICATION Spec
INVARIANTS LocallyOk Nested Strips Symmetric
CHECK_DEADLOCK FALSE
