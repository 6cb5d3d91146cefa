SPECIFICATION FairSpec
CONSTANTS
  Scenarios <- MCScenarios
  World = "@WORLD@"
PROPERTIES Returns
CHECK_DEADLOCK FALSE
