SPECIFICATION MSpec
CONSTANT Depth = 3
INVARIANTS Stored Marked Queued Nothing Once Done Hidden
CHECK_DEADLOCK FALSE
