SPECIFICATION MCSpec
CONSTANTS
  Agents = {1, 2}
  Groups = {1}
  MaxT = 2
  MaxMsgs = 2
  Exps = {0}
  Deaths = 0
  Acts = {"break", "tell", "ask", "wait"}
INVARIANTS InOrder OneInbox Consistent WaitsEnd NotStuck
PROPERTIES NotLost NoExpired
CHECK_DEADLOCK FALSE
