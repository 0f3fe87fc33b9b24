SPECIFICATION Spec
CONSTANTS Bound = 2
INVARIANTS RankOk SpaceOk Cross
CHECK_DEADLOCK FALSE
