SPECIFICATION SimSpec
CONSTANTS
 Objs = {1, 2, 3}
 Configs = {1, 2}
 Variants = {1, 2, 3, 4, 5, 6}
 Seeds = {1, 2}
 Indices = {"first", "edge", "inner", "inner2", "late", "last"}
 Batches <- AllBatches
 Ops = {"seed", "build", "control", "cover", "force"}
 MaxLen = 20
 Weights <- WP19
 Mistake = "none"
INVARIANTS FlowsStable NoSharing
CHECK_DEADLOCK FALSE
