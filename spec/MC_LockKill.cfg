SPECIFICATION Spec
CONSTANTS N = 4 NWork = 2 Kills = 2
INVARIANTS Exclusive Done NoWorkLost GaveUp
PROPERTIES Refines
CHECK_DEADLOCK FALSE
