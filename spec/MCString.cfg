SPECIFICATION MCSpec
CONSTANTS
  Scenarios <- MCScenarios
  World = "@WORLD@"
INVARIANTS Fitting Stored WholeLists Exclusive Lengths
PROPERTIES Exact Refused Looking
CHECK_DEADLOCK FALSE
