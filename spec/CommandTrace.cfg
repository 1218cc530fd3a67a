SPECIFICATION CSpec
CHECK_DEADLOCK FALSE
