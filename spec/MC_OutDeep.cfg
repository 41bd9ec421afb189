SPECIFICATION MSpec
CONSTANT Depth = 4
INVARIANTS Conserved Files Waiting Bundles Counts
CHECK_DEADLOCK FALSE
