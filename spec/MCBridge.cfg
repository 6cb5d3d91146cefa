SPECIFICATION MCSpec
CONSTANTS
  Scenarios <- MCScenarios
  World = "@WORLD@"
INVARIANTS Genuine Fresh Announced Faithful Shaped Gone Mirrored Exclusive
PROPERTIES Passive Still Fixed Calm Ready
CHECK_DEADLOCK FALSE
