SPECIFICATION MSpec
CONSTANT Depth = 4
INVARIANTS Stored Marked Queued Nothing Once Done Hidden
CHECK_DEADLOCK FALSE
