SPECIFICATION TraceSpec
CONSTANTS
  MaxQueries = 0
  Configs <- TraceConfigs
VIEW TraceView
INVARIANT TraceRules
CHECK_DEADLOCK FALSE
