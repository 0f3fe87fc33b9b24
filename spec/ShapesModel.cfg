SPECIFICATION Spec
CONSTANTS MaxSize = 8
INVARIANTS IsShapeInv DiagramInv TransposeInv UpDown BetweenInv ListedInv DiagonalInv
CHECK_DEADLOCK FALSE
