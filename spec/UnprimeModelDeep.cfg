SPECIFICATION Spec
CONSTANTS MaxBoxes = 6
 N = 3
INVARIANTS WeightKept FlyIncreasing StillTableau TopRowsTame AtTheEnd NeverFar
CHECK_DEADLOCK FALSE
