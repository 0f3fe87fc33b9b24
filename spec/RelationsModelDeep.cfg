SPECIFICATION Spec
CONSTANTS MaxSize = 5 N = 2 M = 1 Deg = 5 Rk = 4
INVARIANTS Powers Branching Stable Classical Doubling Pairing Coproduct
CHECK_DEADLOCK FALSE
