SPECIFICATION GSpec
CONSTANTS
  Wheres = {"model", "init", "generator", "agent", "step", "receive", "mreport", "mmethod", "mprop", "areport", "exporter", "sim_start", "iteration_end", "late", "sim_end", "output"}
  Kinds = {"ValueError", "TypeError", "KeyError", "AttributeError", "RuntimeError", "IndexError", "ImportError", "AssertionError", "UserWarning", "TimedOut", "Custom", "KeyboardInterrupt", "StopIteration", "OSError", "LookupError"}
  MaxNth = 4
CHECK_DEADLOCK FALSE
