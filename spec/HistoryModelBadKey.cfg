SPECIFICATION Spec
CONSTANTS FullKey = FALSE
 Complete = TRUE
 Copy = TRUE
 Steps = 8
INVARIANTS HistoryIndependent MemoRight
CHECK_DEADLOCK FALSE
