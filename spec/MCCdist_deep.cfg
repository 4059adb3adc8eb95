SPECIFICATION Spec
CONSTANTS Rows=3 Cols=2 Dims=2 Workers={1,2,3} Accumulator="private"
INVARIANTS Filled Untouched OneOwner
PROPERTIES OnlyOwnersWrite
