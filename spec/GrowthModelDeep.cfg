SPECIFICATION Spec
CONSTANTS N = 3
 M = 3
 MaxEntry = 2
 MaxTotal = 5
 MaxLetter = 4
 MaxLen = 5
INVARIANTS Steps AgreesWithInsertion Total Reflects OddColumns
CHECK_DEADLOCK FALSE
