SPECIFICATION Spec
CONSTANTS MaxTerms = 2 MaxCoef = 1 MaxDeg = 2
INVARIANTS Faithful NoZeroTerms RingLaws CoefficientsRebuild
CHECK_DEADLOCK FALSE
