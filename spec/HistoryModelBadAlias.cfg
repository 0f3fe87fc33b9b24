SPECIFICATION Spec
CONSTANTS FullKey = TRUE
 Complete = TRUE
 Copy = FALSE
 Steps = 8
INVARIANTS HistoryIndependent MemoRight
CHECK_DEADLOCK FALSE
