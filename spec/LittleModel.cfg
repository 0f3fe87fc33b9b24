CONSTANTS N = 3
 K = 4
 KINDS = {"red", "inv", "fpf"}
SPECIFICATION Spec
INVARIANTS MarkOk Unique Terminates Final
CHECK_DEADLOCK FALSE
