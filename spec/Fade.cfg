SPECIFICATION Spec
CONSTANTS N = 9 Many = 12
INVARIANT Sound
CHECK_DEADLOCK FALSE
