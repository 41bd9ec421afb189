SPECIFICATION Spec
CONSTANT Procs = {1, 2, 3, 4}
INVARIANTS Conforms Exclusive
ALIAS Short
CHECK_DEADLOCK FALSE
