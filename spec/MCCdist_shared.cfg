SPECIFICATION Spec
CONSTANTS Rows=1 Cols=2 Dims=2 Workers={1,2} Accumulator="shared"
INVARIANTS Filled
PROPERTIES OnlyOwnersWrite
