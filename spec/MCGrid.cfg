SPECIFICATION Spec
CONSTANTS
 Unit = 10
 Starts <- MCStarts
 Spans <- MCSpans
INVARIANTS StartsAtInitialTime EqualSteps EndsNearest WithinHalfStep LikeArange Emit
PROPERTIES Ends
