SPECIFICATION Spec
CONSTANTS N = 3 MaxDeg = 3 MaxSteps = 2
INVARIANTS Homomorphism Fits Recovered Commutes
CHECK_DEADLOCK FALSE
