SPECIFICATION Spec
CONSTANTS N = 7 Steps = 12
INVARIANT OneSmallest
CHECK_DEADLOCK FALSE
