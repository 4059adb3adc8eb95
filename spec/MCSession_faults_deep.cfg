SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Configs = {1}
 Variants = {1, 2}
 Seeds = {1}
 Indices = {"inner"}
 Batches <- OneBatch
 Ops = {"seed", "build", "control", "cover", "force", "fail", "badquery", "configure"}
 MaxLen = 5
 Mistake = "none"
INVARIANTS FlowsStable Reproducible Functional ArgumentsKept NoSharing FailuresSurface
PROPERTIES QueriesKeepFlows SettingsKept
CHECK_DEADLOCK FALSE
