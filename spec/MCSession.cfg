SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Configs = {1}
 Variants = {1, 2}
 Seeds = {1, 2}
 Indices = {"edge", "inner"}
 Batches <- SmallBatches
 Ops = {"seed", "build", "control", "cover", "force", "scribble"}
 MaxLen = 4
 Mistake = "none"
INVARIANTS FlowsStable Reproducible Functional ArgumentsKept NoSharing
PROPERTIES QueriesKeepFlows
CHECK_DEADLOCK FALSE
