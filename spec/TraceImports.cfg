CONSTANTS Mistake = "none"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
