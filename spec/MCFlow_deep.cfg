SPECIFICATION Spec
CONSTANTS
  KMax = 24
  MaxQueries = 2
  Configs <- AllConfigs
INVARIANTS TypeOK RulesHold PendHolds ReadsDefined Acyclic Pinned DriftTimes Weighted ForwardGradFromZ StochasticNoGrad DrawsFresh CompleteWhenReady QueryHolds
PROPERTIES WriteOnce QueryFrame Terminates
CHECK_DEADLOCK FALSE
