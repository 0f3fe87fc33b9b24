SPECIFICATION Spec
CONSTANTS FullKey = TRUE
 Complete = TRUE
 Copy = TRUE
 Steps = 12
INVARIANTS HistoryIndependent MemoRight
CHECK_DEADLOCK FALSE
