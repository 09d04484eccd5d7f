SPECIFICATION GSpec
CONSTANT Levels = {10, 20, 30, 40}
CHECK_DEADLOCK FALSE
