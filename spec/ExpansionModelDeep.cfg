SPECIFICATION Spec
CONSTANTS N = 3 Hi = 3
INVARIANTS Sound Complete Closed
CHECK_DEADLOCK FALSE
