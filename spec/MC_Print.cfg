SPECIFICATION Spec
INVARIANTS PrintingIsDetermined EverythingIsInOneGroup OrderDoesNotMatter Case
CHECK_DEADLOCK FALSE
