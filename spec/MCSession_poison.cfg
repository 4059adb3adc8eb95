SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Configs = {1}
 Variants = {1}
 Seeds = {1}
 Indices = {"inner"}
 Batches <- OneBatch
 Ops = {"seed", "build", "control", "fail", "badquery"}
 MaxLen = 6
 Mistake = "poison"
INVARIANTS Reproducible
CHECK_DEADLOCK FALSE
