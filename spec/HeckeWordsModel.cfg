CONSTANTS N = 3
 K = 4
 KINDS = {"red", "hecke", "inv", "ihecke", "fpf", "shecke"}
SPECIFICATION Spec
INVARIANTS ValueOk Family Reduced Counts PredsOk AtLeast Monotone
CHECK_DEADLOCK FALSE
