SPECIFICATION Spec
INVARIANTS NoFalseVerdict FailsForAReason OneBadFileIsEnough GoodInputIsJudged EndsAsSpecified
PROPERTY Terminates
