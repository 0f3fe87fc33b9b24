SPECIFICATION Spec
CONSTANTS Bound = 4
INVARIANTS RankOk SpaceOk Cross
CHECK_DEADLOCK FALSE
