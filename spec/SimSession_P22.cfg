SPECIFICATION SimSpec
CONSTANTS
 Objs = {1, 2}
 Configs = {1}
 Variants = {1}
 Seeds = {1, 2}
 Indices = {"first", "edge", "inner", "inner2"}
 Batches <- AllBatches
 Ops = {"seed", "build", "control", "cover", "force", "fail", "badquery"}
 MaxLen = 24
 Weights <- WP22
 Mistake = "none"
INVARIANTS FlowsStable NoSharing
CHECK_DEADLOCK FALSE
