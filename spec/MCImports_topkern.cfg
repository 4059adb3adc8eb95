CONSTANTS Mistake = "topkern" MaxHist = 1
SPECIFICATION Spec
INVARIANTS ImportsSucceed
CHECK_DEADLOCK FALSE
