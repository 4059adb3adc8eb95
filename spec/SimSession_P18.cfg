SPECIFICATION SimSpec
CONSTANTS
 Objs = {1, 2}
 Configs = {1}
 Variants = {1, 2, 3}
 Seeds = {1, 2}
 Indices = {"first", "edge", "inner", "inner2", "late", "last"}
 Batches <- AllBatches
 Ops = {"seed", "build", "control", "cover", "force", "scribble"}
 MaxLen = 22
 Weights <- WP18
 Mistake = "none"
INVARIANTS FlowsStable NoSharing
CHECK_DEADLOCK FALSE
