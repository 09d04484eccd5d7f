SPECIFICATION GSpec
CONSTANT Depth = 2
CHECK_DEADLOCK FALSE
