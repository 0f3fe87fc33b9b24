SPECIFICATION Spec
CONSTANTS N = 2 MaxDeg = 2 MaxSteps = 2
INVARIANTS Homomorphism Fits Recovered Commutes
CHECK_DEADLOCK FALSE
