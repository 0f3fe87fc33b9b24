CONSTANTS N = 5
 L = 6
 M = 2
SPECIFICATION Spec
INVARIANTS StaysIncreasing ShapeOk Same RecordValid ClassKept BatchAgrees Terminates
CHECK_DEADLOCK FALSE
