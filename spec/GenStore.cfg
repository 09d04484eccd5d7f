SPECIFICATION GSpec
CONSTANTS
  Depth = 4
  Dumps = {TRUE}
  Drys = {FALSE}
CHECK_DEADLOCK FALSE
