SPECIFICATION Spec
CONSTANTS N = 2
 M = 2
 MaxEntry = 2
 MaxTotal = 5
 MaxLetter = 3
 MaxLen = 4
INVARIANTS Steps AgreesWithInsertion Total Reflects OddColumns
CHECK_DEADLOCK FALSE
