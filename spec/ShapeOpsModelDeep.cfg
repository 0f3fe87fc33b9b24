SPECIFICATION Spec
CONSTANTS MaxSize = 9 MaxDiag = 5 MaxSteps = 2 MaxWord = 2
INVARIANTS StrictKeys Homogeneous Hecke Far Braid BraidB Strips SeparatedCommute SeriesCommute
CHECK_DEADLOCK FALSE
