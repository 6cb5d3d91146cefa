SPECIFICATION MCSpec
CONSTANTS
  Scenarios <- MCScenarios
  World = "@WORLD@"
INVARIANTS Shape Faithful Stored Filled FillBeforeReturn Exclusive Insist
PROPERTIES Frame MirrorFrame
CHECK_DEADLOCK FALSE
