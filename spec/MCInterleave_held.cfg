SPECIFICATION Spec
CONSTANTS
 Tasks = {1, 2}
 Steps = 2
 MaxQueries = 1
 MaxRaises = 0
 Mistake = "queryscratch"
INVARIANTS ArgumentHeld
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
