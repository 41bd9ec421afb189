SPECIFICATION Spec
INVARIANT Conforms
ALIAS Short
CHECK_DEADLOCK FALSE
