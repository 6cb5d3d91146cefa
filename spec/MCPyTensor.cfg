SPECIFICATION MCSpec
CONSTANTS
  Scenarios <- MCScenarios
  World = "@WORLD@"
INVARIANTS RefusedKeepsArray WriteKeepsArray UnfitRefused RoundTrip Outside Typed
PROPERTIES OnlyBlock
CHECK_DEADLOCK FALSE
