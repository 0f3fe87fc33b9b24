SPECIFICATION Spec
CONSTANTS MaxMu = 6 MaxP = 3 NVars = 2 PieriMu = 3 PieriP = 2 DualMu = 3 DualP = 2
INVARIANTS Sound Complete Bounded
CHECK_DEADLOCK FALSE
