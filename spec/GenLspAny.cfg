SPECIFICATION GSpecAny
INVARIANTS TypeOK Latest
CHECK_DEADLOCK FALSE
