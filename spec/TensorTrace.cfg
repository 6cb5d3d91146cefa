SPECIFICATION TSpec
CONSTANT Scenarios <- TScenarios
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
