SPECIFICATION Spec
CONSTANTS MaxBoxes = 4
 N = 2
INVARIANTS WeightKept FlyIncreasing StillTableau TopRowsTame AtTheEnd NeverFar
CHECK_DEADLOCK FALSE
