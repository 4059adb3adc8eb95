SPECIFICATION Spec
CONSTANTS
  KMax = 14
  MaxQueries = 1
  Configs <- AllConfigs
INVARIANTS TypeOK RulesHold PendHolds ReadsDefined Acyclic Pinned DriftTimes Weighted ForwardGradFromZ StochasticNoGrad DrawsFresh CompleteWhenReady QueryHolds
PROPERTIES WriteOnce QueryFrame Terminates
CHECK_DEADLOCK FALSE
