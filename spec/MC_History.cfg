SPECIFICATION Spec
INVARIANTS SelfIsNothing HistoriesAddUp Case
CHECK_DEADLOCK FALSE
