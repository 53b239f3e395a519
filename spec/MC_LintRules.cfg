SPECIFICATION Spec
CONSTANT SIZE = 5
INVARIANTS RulesAreRight Case
