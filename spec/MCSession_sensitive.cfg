SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Configs = {1}
 Variants = {1, 2}
 Seeds = {1}
 Indices = {"inner"}
 Batches <- OneBatch
 Ops = {"seed", "build", "control", "fail", "configure"}
 MaxLen = 6
 Mistake = "sensitive"
INVARIANTS Reproducible
CHECK_DEADLOCK FALSE
