CONSTANTS
  Names = {"a"}
  MaxLen = 4
SPECIFICATION Spec
INVARIANTS Once Marked
PROPERTIES Idle Local
CHECK_DEADLOCK FALSE
