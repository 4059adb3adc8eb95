SPECIFICATION Spec
CONSTANTS
 Tasks = {1, 2, 3}
 Steps = 2
 MaxQueries = 1
 MaxRaises = 0
 Mistake = "none"
INVARIANTS Isolated ArgumentHeld
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
