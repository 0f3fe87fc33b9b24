SPECIFICATION Spec
CONSTANTS N = 4 Lowest = 1
INVARIANTS Elements Lengths GroupLaws Demazure InvolutionIsSquare
CHECK_DEADLOCK FALSE
