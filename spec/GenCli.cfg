SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
