SPECIFICATION GSpec
CONSTANTS N = 2 NWork = 2 Kills = 1 Sleeps = 2
INVARIANTS Exclusive Out
CHECK_DEADLOCK FALSE
