CONSTANTS
  NProc = 2
  NCall = 1
  MaxKill = 0
  PreExist = FALSE
  Locked = TRUE
SPECIFICATION SSpec
VIEW View
CHECK_DEADLOCK FALSE
