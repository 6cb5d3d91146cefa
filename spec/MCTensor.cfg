SPECIFICATION MCSpec
CONSTANTS
  Scenarios <- MCScenarios
  World = "@WORLD@"
INVARIANTS Exclusive OneServer Owner Count CountBound Typed Shapes Fresh Closed NoSelfDeadlock
PROPERTIES AttachedToRunning Isolation OldGensFrozen
CHECK_DEADLOCK FALSE
CONSTRAINT Bounded
