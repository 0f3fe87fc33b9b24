SPECIFICATION Spec
CONSTANTS MaxMu = 3 MaxP = 2 NVars = 2 PieriMu = 2 PieriP = 1 DualMu = 2 DualP = 2
INVARIANTS Sound Complete Bounded
CHECK_DEADLOCK FALSE
