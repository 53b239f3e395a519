SPECIFICATION Spec
INVARIANTS BothAreSchemas ReportsAreRight Case
CHECK_DEADLOCK FALSE
