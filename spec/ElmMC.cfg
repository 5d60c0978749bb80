SPECIFICATION Spec
CONSTANTS
  OpSet <- Ops1
  MaxN = 2
  MaxFed = 1
VIEW View
INVARIANTS Neurons AccumIsBag SolFresh Config FilesAreSum
CHECK_DEADLOCK FALSE
