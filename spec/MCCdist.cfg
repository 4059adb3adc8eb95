SPECIFICATION Spec
CONSTANTS Rows=2 Cols=2 Dims=2 Workers={1,2} Accumulator="private"
INVARIANTS Filled Untouched OneOwner
PROPERTIES OnlyOwnersWrite Ends
