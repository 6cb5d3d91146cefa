SPECIFICATION FairSpec
CONSTANTS
  Scenarios <- MCScenarios
  World = "@WORLD@"
PROPERTIES Wakes AckWakes
CHECK_DEADLOCK FALSE
