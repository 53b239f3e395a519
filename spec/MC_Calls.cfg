SPECIFICATION Spec
INVARIANTS DocumentsStay AnswersAreOfDocuments NobodyIsLost Case
CHECK_DEADLOCK FALSE
