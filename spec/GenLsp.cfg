SPECIFICATION GSpec
INVARIANTS TypeOK Latest Positions
PROPERTIES Apart
CHECK_DEADLOCK FALSE
