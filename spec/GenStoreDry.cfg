SPECIFICATION GSpec
CONSTANTS
  Depth = 3
  Dumps = {TRUE, FALSE}
  Drys = {TRUE, FALSE}
CHECK_DEADLOCK FALSE
