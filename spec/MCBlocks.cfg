SPECIFICATION BSpec
CONSTANTS
  Scenarios <- BScenarios
  World = "@WORLD@"
INVARIANTS Exactly Writes Reads
CHECK_DEADLOCK FALSE
