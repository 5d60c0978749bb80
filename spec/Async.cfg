CONSTANTS
  NB = 4
  Mode = "add"
  Cap = 1
  Faults = 1
SPECIFICATION Spec
INVARIANTS InOrderOnce Complete RaisedForAReason NothingLeft NoDeadlock Bounded
PROPERTY Termination
CHECK_DEADLOCK FALSE
