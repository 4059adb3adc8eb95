SPECIFICATION Spec
CONSTANTS
 Tasks = {1, 2}
 Steps = 3
 MaxQueries = 1
 MaxRaises = 1
 Mistake = "none"
INVARIANTS Isolated ArgumentHeld Show
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
