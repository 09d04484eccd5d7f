SPECIFICATION TSpec
CONSTANTS
  Agents = {}
  Groups = {}
  MaxT = 0
  MaxMsgs = 0
  Exps = {}
  Deaths = 0
  Acts = {}
INVARIANTS InOrder OneInbox Consistent
CHECK_DEADLOCK FALSE
