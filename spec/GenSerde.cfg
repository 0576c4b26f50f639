SPECIFICATION GSpec
INVARIANTS RoundTrip Written
CHECK_DEADLOCK FALSE
