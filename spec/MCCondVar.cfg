SPECIFICATION MCSpec
CONSTANTS
  Scenarios <- MCScenarios
  World = "@WORLD@"
INVARIANTS Exclusion HolderHas WaitersOut NoFreeWake Promise NotEarly OneOwner
PROPERTIES OpensExisting CreatesNew NotifiedAll NotifiedOne
CHECK_DEADLOCK FALSE
