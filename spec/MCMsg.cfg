SPECIFICATION MCSpec
CONSTANTS
  Agents = {1, 2}
  Groups = {1}
  MaxT = 2
  MaxMsgs = 2
  Exps = {0, 1, 100000000}
  Deaths = 1
  Acts = {"break", "tell", "bcast"}
INVARIANTS InOrder OneInbox Consistent WaitsEnd NotStuck
PROPERTIES NotLost NoExpired
CHECK_DEADLOCK FALSE
