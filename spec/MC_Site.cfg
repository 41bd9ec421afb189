SPECIFICATION MSpec
CONSTANT Depth = 3
INVARIANTS Stored Kept Queued Mailed Nowhere Remembered Links Named Agreed
CHECK_DEADLOCK FALSE
