SPECIFICATION Spec
CONSTANTS
  Dims = {1, 2, 3}
  Sets = {1, 2}
  Calls <- TwoCalls
  MaxLen = 4
INVARIANTS HandlesStable SelectionOK Emit
PROPERTY HandlesFixed
CHECK_DEADLOCK FALSE
