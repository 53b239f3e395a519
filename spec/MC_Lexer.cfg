SPECIFICATION Spec
INVARIANTS CoversText LinesAreCounted OwnText CommentsAreInert Compositional EveryHashIsAccountedFor
CHECK_DEADLOCK FALSE
