SPECIFICATION Spec
CONSTANT SIZE = 7
INVARIANTS RulesAreRight Case
