SPECIFICATION Spec
CONSTANTS Rows = 2
 Cols = 3
 M = 2
 MaxEntries = 5
INVARIANTS Sorted Counting Involutions AddRemove TransposeWords RowWordInverse StandardizeStandard OrderTotal PrintFaithful
CHECK_DEADLOCK FALSE
