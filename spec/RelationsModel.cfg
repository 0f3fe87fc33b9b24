SPECIFICATION Spec
CONSTANTS MaxSize = 4 N = 1 M = 1 Deg = 4 Rk = 3
INVARIANTS Powers Branching Stable Classical Doubling Pairing Coproduct
CHECK_DEADLOCK FALSE
