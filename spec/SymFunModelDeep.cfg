SPECIFICATION Spec
CONSTANTS N = 3 MaxSize = 5
INVARIANTS Symmetric Alternant TwoPower OneRow Classical Grassmannian SkewSame DoubleSelf
CHECK_DEADLOCK FALSE
