CONSTANTS N = 4
 L = 6
SPECIFICATION Spec
INVARIANTS Statistics Turns Blocks Refine Strands Lines
CHECK_DEADLOCK FALSE
