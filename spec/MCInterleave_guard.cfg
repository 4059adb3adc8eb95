SPECIFICATION Spec
CONSTANTS
 Tasks = {1, 2}
 Steps = 2
 MaxQueries = 1
 MaxRaises = 1
 Mistake = "guard"
INVARIANTS Isolated
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
