SPECIFICATION Spec
CONSTANTS MaxSize = 11
INVARIANTS IsShapeInv DiagramInv TransposeInv UpDown BetweenInv ListedInv DiagonalInv
CHECK_DEADLOCK FALSE
