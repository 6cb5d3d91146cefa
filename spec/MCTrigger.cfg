SPECIFICATION MCSpec
CONSTANTS
  Scenarios <- MCScenarios
  World = "@WORLD@"
INVARIANTS OncePerTrigger NoSilentSkip AcksCounted AcksAwaited NotEarly OneProducer Owned
PROPERTIES ConsumersOfRunning OnlyCounted
CHECK_DEADLOCK FALSE
