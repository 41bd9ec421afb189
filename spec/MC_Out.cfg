SPECIFICATION MSpec
CONSTANT Depth = 3
INVARIANTS Conserved Files Waiting Bundles Counts
CHECK_DEADLOCK FALSE
