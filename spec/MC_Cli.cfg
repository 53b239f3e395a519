SPECIFICATION Spec
INVARIANTS Case NoFalseVerdict FailsForAReason OneBadFileIsEnough GoodInputIsJudged EndsAsSpecified
