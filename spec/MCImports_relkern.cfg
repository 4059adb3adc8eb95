CONSTANTS Mistake = "relkern" MaxHist = 1
SPECIFICATION Spec
INVARIANTS ImportsSucceed
CHECK_DEADLOCK FALSE
