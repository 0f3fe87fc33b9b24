SPECIFICATION Spec
CONSTANTS Rows = 2
 Cols = 2
 M = 2
 MaxEntries = 4
INVARIANTS Sorted Counting Involutions AddRemove TransposeWords RowWordInverse StandardizeStandard OrderTotal PrintFaithful
CHECK_DEADLOCK FALSE
