CONSTANTS N = 4
 K = 5
 KINDS = {"red", "hecke", "inv", "ihecke", "fpf", "shecke"}
SPECIFICATION Spec
INVARIANTS ValueOk Family Reduced Counts PredsOk AtLeast Monotone
CHECK_DEADLOCK FALSE
