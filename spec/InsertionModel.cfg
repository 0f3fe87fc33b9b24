CONSTANTS N = 4
 L = 5
 M = 2
SPECIFICATION Spec
INVARIANTS StaysIncreasing ShapeOk Same RecordValid ClassKept BatchAgrees Terminates
CHECK_DEADLOCK FALSE
