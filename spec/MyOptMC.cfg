SPECIFICATION Spec
CONSTANTS MaxL = 7
          Vals = 3
INVARIANTS Sound Found Unique
CHECK_DEADLOCK FALSE
