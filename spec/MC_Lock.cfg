SPECIFICATION Fair
CONSTANTS N = 3 NWork = 2 Kills = 0
INVARIANTS Exclusive Done NoWorkLost GaveUp
PROPERTIES Refines Turn
CHECK_DEADLOCK FALSE
