SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Configs = {1}
 Variants = {1, 2}
 Seeds = {1}
 Indices = {"inner"}
 Batches <- OneBatch
 Ops = {"seed", "build", "control", "fail", "configure"}
 MaxLen = 5
 Mistake = "leak"
PROPERTIES SettingsKept
CHECK_DEADLOCK FALSE
