SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Sets = {1, 2}
  MaxLen = 3
INVARIANTS NoMemory MemoryIsLast Emit
CHECK_DEADLOCK FALSE
