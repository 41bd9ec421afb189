SPECIFICATION FSpec
INVARIANT Conforms
ALIAS Short
CHECK_DEADLOCK FALSE
