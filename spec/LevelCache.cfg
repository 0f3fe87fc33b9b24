CONSTANTS Gen = {1, 2, 3}
 Depth = 4
 Snapshot = TRUE
SPECIFICATION Spec
INVARIANTS LevelsInOrder CacheSound
CHECK_DEADLOCK FALSE
