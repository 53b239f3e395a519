SPECIFICATION Spec
INVARIANTS VarianceIsInclusion OutputIsReverseOfInput BothWaysOnlyIfEqual TextTellsTypesApart Case
