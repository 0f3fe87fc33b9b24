CONSTANTS N = 4
 K = 6
 KINDS = {"red", "inv", "fpf"}
SPECIFICATION Spec
INVARIANTS MarkOk Unique Terminates Final
CHECK_DEADLOCK FALSE
