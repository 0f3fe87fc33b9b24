SPECIFICATION Spec
CONSTANTS N = 2 MaxSize = 4
INVARIANTS Symmetric Alternant TwoPower OneRow Classical Grassmannian SkewSame DoubleSelf
CHECK_DEADLOCK FALSE
