SPECIFICATION CSpec
INVARIANT Accept
CHECK_DEADLOCK FALSE
