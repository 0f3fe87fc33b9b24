SPECIFICATION Spec
CONSTANTS N = 3 Lowest = 0
INVARIANTS Elements Lengths GroupLaws Demazure InvolutionIsSquare
CHECK_DEADLOCK FALSE
