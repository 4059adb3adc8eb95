SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Configs = {1}
 Variants = {1}
 Seeds = {0}
 Indices = {"inner"}
 Batches <- OneBatch
 Ops = {"seed", "build", "control"}
 MaxLen = 9
 Mistake = "stale"
INVARIANTS Functional
CHECK_DEADLOCK FALSE
