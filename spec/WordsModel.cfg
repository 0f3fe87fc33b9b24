CONSTANTS N = 3
 L = 5
SPECIFICATION Spec
INVARIANTS Statistics Turns Blocks Refine Strands Lines
CHECK_DEADLOCK FALSE
