SPECIFICATION Spec
CONSTANTS FullKey = TRUE
 Complete = TRUE
 Copy = TRUE
 Steps = 8
INVARIANTS HistoryIndependent MemoRight
CHECK_DEADLOCK FALSE
