CONSTANTS Mistake = "exportall" MaxHist = 1
SPECIFICATION Spec
INVARIANTS ExportsFit
CHECK_DEADLOCK FALSE
