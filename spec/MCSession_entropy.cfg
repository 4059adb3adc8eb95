SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Configs = {1}
 Variants = {1, 2}
 Seeds = {1, 2}
 Indices = {"edge", "inner"}
 Batches <- SmallBatches
 Ops = {"seed", "build", "control", "cover", "scribble"}
 MaxLen = 6
 Mistake = "entropy"
INVARIANTS Reproducible
CHECK_DEADLOCK FALSE
