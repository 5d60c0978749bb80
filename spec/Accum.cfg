CONSTANTS
  NProc = 2
  NCall = 2
  MaxKill = 1
  PreExist = FALSE
  Locked = TRUE
SPECIFICATION Spec
INVARIANTS ExactlyOnce NormOnce MutualExclusion NoDeadlock LocksReleased TornOnlyInWindow
PROPERTY Termination
CHECK_DEADLOCK FALSE
