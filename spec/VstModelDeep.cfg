SPECIFICATION Spec
CONSTANTS MaxBoxes = 5
 N = 3
INVARIANTS Wf GroupsAreLines OneEndPerGroup WeightCountsGroups SingletonsAreGroups
CHECK_DEADLOCK FALSE
