SPECIFICATION MCSpec
CONSTANTS
  Scenarios <- MCScenarios
  World = "@WORLD@"
INVARIANTS Informed Sound FillFirst Exclusive
PROPERTIES Blocks Fresh
CHECK_DEADLOCK FALSE
