SPECIFICATION Spec
CONSTANTS MaxSize = 5 MaxDiag = 3 MaxSteps = 2 MaxWord = 2
INVARIANTS StrictKeys Homogeneous Hecke Far Braid BraidB Strips SeparatedCommute SeriesCommute
CHECK_DEADLOCK FALSE
