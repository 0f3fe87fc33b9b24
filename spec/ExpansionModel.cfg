SPECIFICATION Spec
CONSTANTS N = 2 Hi = 3
INVARIANTS Sound Complete Closed
CHECK_DEADLOCK FALSE
