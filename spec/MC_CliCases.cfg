INIT Init
NEXT Next
INVARIANT Case
ACTION_CONSTRAINT OnlyScenarios
CHECK_DEADLOCK FALSE
