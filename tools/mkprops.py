#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
CMP = "pkg/compare/compare.go"
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Equivalent schemas compare as identical",
 "Comparing two schemas that differ only in layout, comments, the order in which definitions, fields, arguments, enum values, union members, interfaces, locations, root operations and directive applications are written, or in how the text is divided over files and over several `extend` blocks of the same type or of the schema, reports no change at all. In particular any schema compared with itself reports nothing.",
 ["inputs"], "every schema in which names are unique per scope (extension blocks may repeat a type name), and every re-arrangement of it",
 "The tests compare small hand-written pairs that do differ; no test compares a schema with a re-arranged copy of itself, with repeated directives without arguments, or with several extension blocks.",
 [CMP, "utils/util.go"], [("name based lookups", CMP+": ForName in every check*"), ("repeated directive matching", CMP+": changeInTypeFieldDirectives"), ("persisted pairs", CMP+": changeInTypes")],
 observe=["compare.FindChangesInSchemas", "gql compare output"])

prop("C02", "Every removal, kind change and root retarget is Breaking",
 "Whenever the new schema lacks something the old one offered - a type or a type extension, a field of an object or interface, an input field, a field argument, an enum value, a union member, an interface implemented by an object, a directive definition, an argument, a location or the repeatable marker of a directive, a root operation - the report contains a Breaking change of the matching kind that names it, whatever else changed around it. The same holds when a type keeps its name but changes kind and when a root operation - declared, or implied by the default type names - is pointed at another type. (Members of a type whose kind changed are covered by the kind change.)",
 ["inputs"], "all pairs of schemas, all positions of the removed element, any number of simultaneous other edits",
 "Each removal is tested once, alone, on a two-field schema; masking by other edits, position in the list, nesting in extensions and interface/union/directive variants are not reached.",
 [CMP], [("checkTypeRemoved", CMP), ("changeInFields/changeInInputFields/changeInArgument", CMP), ("changeInEnum, checkUnionMemberRemoved, checkTypeInterfaceRemoved", CMP), ("changeInDirective and helpers", CMP), ("changesInSchemaOperation", CMP)],
 observe=["compare.FindChangesInSchemas"])

prop("C03", "Type changes are classified by exact variance",
 "When the type of a field, field argument, input field or directive argument differs between the versions, exactly one type change is reported for it. For an output field it is NonBreaking if and only if every value the new type can produce is a value of the old type; for an argument, input field or directive argument it is NonBreaking if and only if every value the old type accepted is accepted by the new type (without list coercion; types of different names count as having no value in common); in all other cases it is Breaking. This holds at every list nesting depth and for every placement of non-null markers.",
 ["inputs"], "all pairs of type references, all nesting depths, all four positions",
 "Tests contain about a dozen pairs of types of depth at most one; the recursion has 2^depth nullability combinations per position and two directions.",
 [CMP], [("isSafeChangeForFieldType", CMP), ("isSafeChangeForInputValue", CMP), ("checkFieldTypeChanged, checkFieldArgumentTypeChanged, checkInputFieldTypeValueChanged, checkDirectiveArgumentTypeChanged", CMP)],
 observe=["compare.FindChangesInSchemas"])

prop("C04", "Added arguments and input fields are graded by required-ness",
 "An argument added to an existing field, an input field added to an existing input type and an argument added to an existing directive definition are each reported once, and Breaking exactly when the outermost type is non-null. Otherwise a field argument or an input field is Dangerous and a directive argument is NonBreaking. Inner nullability, default values, descriptions and the presence of other edits make no difference.",
 ["inputs"], "all types of the added element, all owners (object, interface, input, directive; base or extension)",
 "Tests add one scalar argument or field, with and without `!`; list types with non-null elements, interfaces, extensions and defaults are not reached.",
 [CMP, "README.md"], [("checkFieldArgumentAdded", CMP), ("checkInputFieldsAdded", CMP), ("checkDirectiveArgumentAdded", CMP)],
 observe=["compare.FindChangesInSchemas"])

prop("C05", "Behaviour-altering but compatible edits are reported Dangerous",
 "Each of the following is reported once with criticality exactly Dangerous: a default value of a field argument, input field or directive argument that is changed, added or removed (except that removing it from a non-null one, which makes it required, is Breaking); deprecation added to or removed from a field, input field or enum value; an added enum value; an added union member; an interface newly implemented by an object; a directive application removed from an object, interface, field or input field, or one whose argument was removed or changed value.",
 ["inputs"], "all such edits in all owners (base or extension), all default and argument value kinds (scalars, enums, lists, objects, null), alone or combined",
 "Tests exercise one value kind per edit and skip default changes on fields and input fields, removal of enum deprecation, added/removed defaults and structured values.",
 [CMP, "README.md"], [("default value comparisons", CMP+": changeInArgument, checkInputFieldTypeValueChanged, checkDirectiveArgumentTypeChanged"), ("checkFieldDeprecationChanged, checkEnumValueDeprecationChanged", CMP), ("checkEnumValuesAdded, checkUnionMemberAdded, checkTypeInterfacesAdded", CMP), ("changeInTypeFieldDirectives", CMP)],
 observe=["compare.FindChangesInSchemas"])

prop("C06", "Additive and descriptive edits are never alarming",
 "An added type, type extension, field of an object or interface, directive definition, directive location, repeatable marker, root operation, application of a directive not applied to the element before, or argument of a single directive application, and a changed description (of a type, field, input field, argument, enum value, directive or directive argument) or a deprecation reason given in both versions are each reported once, as NonBreaking (but an added extension, or an added definition of a type that so far was only extended, is Breaking if it gives an input type a non-null field). Two schemas that differ only by such edits and by compatible type changes yield neither Breaking nor Dangerous changes, so the comparison passes.",
 ["inputs"], "all pairs of schemas related by additive and descriptive edits only",
 "Tests check single edits; a false alarm caused by a combination, by extensions, or by repeated directives is not reached.",
 [CMP, "README.md"], [("checkTypeAdded, checkFieldsAdded, checkDirectiveAdded, checkFieldDirectiveAdded, checkDirectiveLocationChanged, checkDirectiveRepeatableChanged", CMP), ("description comparisons", CMP)],
 observe=["compare.FindChangesInSchemas", "exit status of gql compare"])

prop("C07", "The report is exact: no phantom, duplicate or masked change",
 "The multiset of reported changes (kind, criticality, element) is exactly the one determined by the differences between the two schemas: each reported change corresponds to one actual difference, no difference is reported twice, and a difference is reported in the same way whether it is the only one or occurs together with arbitrarily many others. The report of two schemas differing by independent edits is the union of the reports of the single edits.",
 ["inputs", "histories"], "all pairs of schemas, all sequences of edits leading from one to the other",
 "Every test has exactly one edit, and only the first change of the result is looked at; interactions between edits are never exercised.",
 [CMP], [("FindChangesInSchemas accumulation", CMP), ("changeInTypes pairing", CMP)],
 observe=["compare.FindChangesInSchemas"])

prop("C08", "A report without Breaking changes means existing clients keep working",
 "If comparing old and new reports no Breaking change, then every client operation that is valid against the old schema (field selections, fragments, arguments with literals or variables, input objects, enum values, directives) is valid against the new schema, and each selected field can only return what its old type allowed. Merging of equally named response fields, and the new enum values and object types that are reported as Dangerous, are outside this guarantee.",
 ["inputs", "programs"], "all pairs of schemas and all client operations valid against the old one",
 "Tests never execute or validate a client operation; the guarantee quantifies over all schemas and all operations.",
 [CMP, "README.md"], [("criticality of all Breaking rules", CMP), ("isSafeChangeForFieldType/InputValue", CMP)],
 observe=["compare.FindChangesInSchemas", "compare.GroupChanges"])

prop("C09", "Base definitions and extensions are both fully compared",
 "When a type has both a base definition and `extend` blocks, changes in either part are reported, independently of whether the other part exists or changed, and all `extend` blocks of one type act together as one extension. The same holds for `schema` and `extend schema` blocks: every root operation in any of them takes part in the comparison, and a version that spells out no `schema` block while the other does has the root operations implied by the default type names.",
 ["inputs", "configurations"], "all pairs of schemas with any mixture of base definitions and extension blocks, in any file layout and order",
 "Only one extended type, alone, is added or removed in tests; base plus extension of the same type, or several extensions (the normal form of a federated schema), never occur.",
 [CMP], [("changeInTypes", CMP), ("checkTypeRemoved/checkTypeAdded", CMP), ("changeInSchema", CMP)],
 observe=["compare.FindChangesInSchemas"])

prop("C10", "Comparing in the opposite direction mirrors the report",
 "Whatever is reported as added when comparing A to B is reported as removed when comparing B to A and vice versa (types, extensions, fields, input fields, arguments, enum values, union members, interfaces, directives, their arguments, locations and repeatable marker, deprecations, directive applications and their arguments, root operations). Whatever is reported as changed in place (type, kind, default value, description, deprecation reason) is reported as changed in both directions for the same element.",
 ["inputs"], "all pairs of schemas",
 "No test compares a pair in both directions, and most add/remove pairs are tested on different schemas.",
 [CMP], [("paired removed/added loops", CMP)],
 observe=["compare.FindChangesInSchemas"])

prop("C11", "Each change names and locates the element it is about",
 "Each change carries the path of the affected element (root operation changes have none) and a message, in the fixed wording of its kind, that names that element, what happened to it (added, removed, changed, deprecated) and, for changed types, root types, kinds, default and directive argument values, both the old and the new one. Its position is the file and line of that element in the new version - for something removed, those of its closest surviving enclosing declaration (for several extension blocks of a type, the first) - and in the old version for removed types, directives, root operations and enum values.",
 ["inputs"], "all changes of all pairs of schemas, over any number of files",
 "Tests look only at kind and criticality; path, message and position are never asserted.",
 [CMP], [("Change literals in every check", CMP), ("getPosition", CMP)],
 observe=["Change.GetPath, GetMessage, GetPosition", "gql compare output"])

prop("C12", "Printing a report loses, repeats and misplaces nothing",
 "Grouping changes by criticality and printing the groups shows every change of a printed group exactly once, under the marker of its criticality, with its message and - unless positions are suppressed - its file and line; within a group lines are ordered by file and line. The number returned for a group equals the number of its printed lines, and breaking changes come before dangerous ones and those before non-breaking ones.",
 ["inputs", "configurations"], "all reports (any mixture and number of changes, any tie in position) and all display options",
 "Grouping and printing have no tests at all.",
 [CMP, "cmd/compare/compare_cmd.go"], [("GroupChanges", CMP), ("ReportBreakingChanges, ReportDangerousChanges, ReportNonBreakingChanges, less", CMP)],
 observe=["stdout of gql compare", "return values of Report*"])

prop("C13", "compare exits 1 exactly when something is Breaking; flags only affect display",
 "With readable, parsable inputs `gql compare` exits with status 1 if at least one Breaking change exists and 0 otherwise, and its closing line states the matching verdict (no changes, no breaking changes, or the exact number of breaking changes). The breaking-only and hide-position options change which lines are shown, never the status, the verdict or the count.",
 ["inputs", "configurations"], "all pairs of schemas x all combinations of options, long and short spelling",
 "The command line layer has no tests; the only state that CI users see, the exit status, is never checked.",
 ["cmd/compare/compare_cmd.go", CMP], [("exitStatus/errorCount", "cmd/compare/compare_cmd.go"), ("ReportBreakingChanges count", CMP)],
 observe=["exit status and stdout of gql compare"])

prop("C14", "Output is a deterministic function of the input files",
 "Running `gql compare` or `gql lint` any number of times on the same files with the same options gives the same exit status and byte-for-byte the same output. It does not depend on internal iteration order over files or types.",
 ["schedules", "inputs"], "all inputs (including several files, several changes on one line, equal positions) and all runtime iteration orders",
 "Go randomises map iteration per run; tests run each case once, on one file, and look at unordered facts.",
 ["cmd/linter/lint_cmd.go", "utils/util.go", CMP], [("order of schema sources", "utils/util.go: ParseSchema"), ("iteration over files", "cmd/linter/lint_cmd.go: FindLintErrors"), ("iteration over persisted types, sorting", CMP)],
 observe=["stdout and exit status of repeated runs"])

prop("C15", "What breaks over several versions breaks in one of the steps",
 "For any three versions of a schema, every Breaking change reported between the first and the last is accounted for on the way by the one in the middle: the comparison of the first with the middle one, or of the middle one with the last, reports a Breaking change about the same element, something containing it or a part of it (for a root operation: some Breaking change). Every Dangerous change that is not about directives applied to an element is likewise accounted for by a Dangerous or Breaking one. In consequence, if no single step of a history of versions is Breaking, however long it is and whether it goes forward or back, then comparing its ends reports nothing Breaking either.",
 ["inputs", "histories"], "all sequences of versions of a schema, of any length, and all elements that come, change, go and return on the way",
 "Tests compare isolated pairs; no test relates the reports of several comparisons to each other.",
 [CMP], [("criticality of every kind of change", CMP), ("isSafeChangeForFieldType/InputValue", CMP), ("checkTypeAdded, checkFieldArgumentAdded, checkInputFieldsAdded", CMP)],
 observe=["compare.FindChangesInSchemas", "gql compare on each step of a history"])

prop("C16", "Answers are a matter of the documents; no call alters them",
 "Used as a library, the comparison (compare.FindChangesInSchemas, GroupChanges), every lint rule (linter.AllTheRules), the rule selection (cmd/linter.FindTheRulesToApply) and the linter (cmd/linter.Lint) answer each call by what they are given and by nothing else: the same call gives the same answer (up to order) whatever was called before, however often and by how many goroutines at the same time, on documents they share. No call alters a document it was given, and no later call alters an answer given earlier.",
 ["histories", "schedules"], "all sequences of calls on shared documents, and all ways in which calls of several callers overlap",
 "Each test parses its own documents and makes one call on them.",
 [CMP, "pkg/linter/rules.go", "cmd/linter/lint_cmd.go", "cmd/linter/linter.go"], [("comparison over shared syntax trees", CMP), ("rule functions over shared syntax trees", "pkg/linter/rules.go"), ("AllTheRules", "pkg/linter/rules.go"), ("FindTheRulesToApply", "cmd/linter/lint_cmd.go")],
 observe=["compare.FindChangesInSchemas, compare.GroupChanges, linter.AllTheRules, cmd/linter.Lint, cmd/linter.FindTheRulesToApply"])

prop("L01", "Description rules report exactly the undescribed elements",
 "type-desc reports exactly the type definitions (of every kind, extensions excluded) without a description; field-desc exactly the fields and input fields, args-desc exactly the field arguments of objects and interfaces, and enum-desc exactly the enum values that have none, in definitions and in extensions alike. An absent and an empty description count the same, each offending element is reported once, with its qualified name in the fixed wording of the rule, and nothing else is reported.",
 ["inputs"], "all parsable schemas",
 "Tests only ask whether a small schema has some error or none; which elements, how often and with which name is not checked, nor are most type kinds.",
 ["pkg/linter/rules.go"], [("TypesHaveDescription, FieldsHaveDescription, ArgumentsHaveDescription, EnumValuesHaveDescriptions", "pkg/linter/rules.go")],
 observe=["linter.AllTheRules[...].RuleFunction", "gql lint output"])

prop("L02", "Naming rules report exactly the misnamed elements",
 "type-caps reports exactly the types whose name starts with a lower case letter, field-camel exactly the fields and input fields whose name is not a lower case letter followed only by letters and digits, and enum-caps exactly the enum values whose name contains a lower case letter. Definitions and extensions are treated alike, each offending element is reported once with its qualified name in the fixed wording of the rule, and nothing else is reported.",
 ["inputs"], "all names over the GraphQL name alphabet, in all kinds of definitions and extensions",
 "Tests try a handful of names; boundary letters (a, z), digits and underscores at each position are not covered.",
 ["pkg/linter/rules.go"], [("TypesAreCapitalized", "pkg/linter/rules.go"), ("FieldsAreCamelCased, camelCaseRegex", "pkg/linter/rules.go"), ("EnumValuesAreAllCaps", "pkg/linter/rules.go")],
 observe=["linter.AllTheRules[...].RuleFunction", "gql lint output"])

prop("L03", "relay-conn-type decides the Relay connection type rules exactly",
 "For each type definition whose name ends in `Connection`: a definition that is not an object type yields exactly one error; an object type yields one error if it has no `edges` field, one if its `edges` field is not of list type (non-null or not), one if it has no `pageInfo` field, and one if its `pageInfo` field is not exactly `PageInfo!` - and no other. Other types yield none.",
 ["inputs"], "all type definitions, all combinations of presence and types of `edges` and `pageInfo`",
 "Tests cover about ten schemas and only whether any error is found.",
 ["pkg/linter/rules.go"], [("RelayConnectionTypesSpec, isFieldListType", "pkg/linter/rules.go")],
 observe=["linter.AllTheRules[...].RuleFunction", "gql lint output"])

prop("L04", "relay-conn-args decides the Relay pagination argument rules exactly",
 "For each field in a type definition whose (innermost) type name ends in `Connection`: one error if it has neither both `first` and `after` nor both `last` and `before`; one error if `first` is present and is not an `Int` (nullable `Int` when both `last` and `before` are present), and one error if `last` is present and is not an `Int` (nullable `Int` when both `first` and `after` are present) - and no other. Fields of other types yield none.",
 ["inputs"], "all subsets of the four arguments with all types, in every order, on all owners",
 "Tests contain about a dozen combinations and only whether any error is found; the rule has hundreds of combinations.",
 ["pkg/linter/rules.go"], [("RelayConnectionArgumentsSpec, isArgListType", "pkg/linter/rules.go")],
 observe=["linter.AllTheRules[...].RuleFunction", "gql lint output"])

prop("L05", "Rule selection applies exactly the selected rules",
 "`gql lint -r` applies exactly the named rules, whatever their letter case, surrounding blanks, order or splitting over several flags, and without it all documented rules; the errors of a selection are the union of the errors each selected rule gives alone. A name that is not a rule makes the command fail with a message naming it, without linting anything.",
 ["inputs", "configurations"], "all lists of distinct rule names and non-names x all schemas",
 "Rule selection and the lint command have no tests.",
 ["cmd/linter/lint_cmd.go", "pkg/linter/rules.go"], [("FindTheRulesToApply", "cmd/linter/lint_cmd.go"), ("AllTheRules", "pkg/linter/rules.go"), ("rule loop", "cmd/linter/linter.go: Lint")],
 observe=["gql lint output and exit status"])

prop("L06", "lint-disable / lint-enable suppress exactly the lines between them",
 "After a `#lint-disable` comment, errors of the rules it lists on later lines are dropped until a later `#lint-enable` comment lists the rule again; errors on or before the line of the comment, of rules not listed, and after re-enabling are kept. Lists are comma separated and matched without regard to case and blanks; each rule is tracked separately, and the latest comment above a line decides.",
 ["inputs", "histories"], "all sequences of disable/enable comments, errors and rules",
 "Inline configuration has no tests.",
 ["cmd/linter/linter.go", "cmd/linter/inline_lint_config.go"], [("filterErrors", "cmd/linter/linter.go"), ("extractInlineLintConfiguration, sanitizeRules", "cmd/linter/inline_lint_config.go")],
 observe=["gql lint output"])

prop("L07", "lint-disable-line suppresses exactly its own line for its rules",
 "A `#lint-disable-line` comment drops the errors of the rules it lists on the line it stands on, and no other error: not those of other rules, other lines or other files. It takes precedence over any enable comment and leaves ranges opened by disable comments as they are.",
 ["inputs", "histories"], "all placements of line comments among ranges, several per schema, several rules and files",
 "Inline configuration has no tests.",
 ["cmd/linter/linter.go", "cmd/linter/inline_lint_config.go"], [("filterErrors", "cmd/linter/linter.go")],
 observe=["gql lint output"])

prop("L08", "Only genuine comments configure the linter, at their true line",
 "Inline configuration is taken from exactly those comments of the schema text that start with `#lint-`: text inside strings and block strings, wherever quotes, escapes and line breaks fall, never acts as configuration, a comment after any such string does, and the first or last thing in a file counts too. The line it applies to is the line it stands on, with LF, CR and CRLF line ends, multi-line block strings, tabs, byte order marks and non-ASCII text before it.",
 ["inputs"], "all parsable schema texts",
 "The hand-copied tokenizer that finds comments has no tests; the quantifier is over all texts.",
 ["cmd/linter/lexer/lexer.go", "cmd/linter/inline_lint_config.go"], [("ReadToken, readComment, readString, readBlockString, ws", "cmd/linter/lexer/lexer.go"), ("extractInlineLintConfiguration", "cmd/linter/inline_lint_config.go")],
 observe=["lexer.New/ReadToken", "gql lint output"])

prop("L09", "Lint errors are located, ordered and presented faithfully",
 "Each remaining error is printed exactly once as file:line:column followed by its message, where line and column are the source position of the offending element in that file (for a field, that of its type), and the errors of a file appear in ascending order of line and column. No error found by a selected rule and not suppressed is missing from the output, however many there are and however many share a position.",
 ["inputs"], "all schemas, all numbers of errors and ties",
 "Sorting, filtering and printing have no tests; the rule tests do not look at positions.",
 ["pkg/linter/lint_error.go", "pkg/linter/rules.go", "cmd/linter/linter.go", "cmd/linter/lint_cmd.go"], [("GetSortedErrors, Less", "pkg/linter/lint_error.go"), ("Line/Column in every rule", "pkg/linter/rules.go"), ("errorPresenter", "cmd/linter/lint_cmd.go")],
 observe=["gql lint output"])

prop("L10", "lint exits 1 exactly when errors remain and counts them exactly",
 "With readable, parsable input `gql lint` exits with status 1 if at least one error remains in any file after inline configuration, and 0 otherwise. The closing line states success exactly in the second case, and otherwise the total number of errors printed over all files.",
 ["inputs", "configurations"], "all sets of files x rule selections x inline configurations, from files or standard input",
 "The command line layer has no tests.",
 ["cmd/linter/lint_cmd.go"], [("FindLintErrors", "cmd/linter/lint_cmd.go")],
 observe=["gql lint exit status and output"])

prop("L11", "No parsable input crashes or hangs lint or compare",
 "For every schema text that parses, linting it with any rules and comparing it with any other such schema terminates with a normal exit status (0 or 1) and a normal report, never with a runtime panic. This includes malformed lint comments, empty documents, types without bodies, and unusual but legal tokens.",
 ["inputs"], "all parsable texts, all pairs of them, all option combinations",
 "Tests use a few well-formed schemas and never call the command line entry points.",
 ["cmd/linter/inline_lint_config.go", "cmd/linter/lexer/lexer.go", "pkg/linter/rules.go", CMP], [("comment pattern match", "cmd/linter/inline_lint_config.go"), ("nil position and type dereferences", CMP), ("name indexing", "pkg/linter/rules.go: TypesAreCapitalized")],
 observe=["gql lint / gql compare exit status and stderr"])

prop("L12", "The linter's tokenizer agrees with the GraphQL grammar on every token",
 "For every text, the sequence of tokens produced by the linter's tokenizer is the one the GraphQL lexical grammar defines - kind, value (escapes resolved, block string indentation removed), line, column and offsets as the schema parser's own tokenizer assigns them - plus one token per comment carrying its full text. A text on which the grammar has no token yields an error at that point and never a wrong token.",
 ["inputs"], "all texts, in particular all short texts over the significant characters",
 "The tokenizer is a hand-modified copy and has no tests of its own.",
 ["cmd/linter/lexer/lexer.go", "cmd/linter/lexer/blockstring.go", "cmd/linter/lexer/token.go"], [("ReadToken and read* functions", "cmd/linter/lexer/lexer.go"), ("blockStringValue", "cmd/linter/lexer/blockstring.go")],
 observe=["lexer.New, Lexer.ReadToken"])

prop("I01", "A path pattern means all matching files, each treated completely",
 "With a path pattern, lint processes every matching file exactly once and reports for each what it reports for that file alone; compare treats the matching files as one schema, so its report (up to file names) is the one for a single file holding all their definitions. Standard input is linted like a file with that content.",
 ["inputs", "configurations"], "all sets of files and patterns, all ways of dividing a schema over files",
 "File reading, patterns and merging have no tests beyond two single files read in one test.",
 ["utils/util.go", "cmd/linter/lint_cmd.go", "cmd/compare/compare_cmd.go"], [("ReadFiles, ParseSchema", "utils/util.go"), ("FindLintErrors", "cmd/linter/lint_cmd.go")],
 observe=["gql lint / gql compare output"])

prop("I02", "Unusable input always fails and never passes for a clean result",
 "If a pattern matches nothing, a matching file cannot be opened or read, any file does not parse, an option value is missing or both compare paths are the same, the command exits with a non-zero status and a message that identifies the offending path and the reason, and never prints a clean or complete verdict (no changes, no breaking changes, no lint errors). One bad file among good ones is enough.",
 ["fault_sequences", "configurations"], "all combinations of input faults on either side and position among good files",
 "No test injects an input fault.",
 ["utils/util.go", "cmd/linter/lint_cmd.go", "cmd/linter/linter.go", "cmd/compare/compare_cmd.go"], [("error returns", "utils/util.go: ReadFiles, ParseSchema"), ("os.Exit(1) paths", "cmd/compare/compare_cmd.go, cmd/linter/*.go")],
 observe=["exit status and stdout of gql lint / gql compare"])

prop("I03", "Every command line is carried out as written or refused",
 "Options mean the same in every spelling (short, long, joined, with '=', grouped switches), in any order and around words that are no options; of a single-valued option given again the last value counts, values of -r add up, a switch may be turned off with =false, and '--' ends the options. A command line that asks for something there is not (an unknown option or command, an option without its value, a switch with a value that is no truth value) ends with a non-zero status and a message naming what is wrong, without any verdict; asking for help ends with status 0 and without a verdict.",
 ["configurations"], "all command lines over the documented options and their misspellings",
 "No test runs the commands.",
 ["cmd/root.go", "cmd/linter/lint_cmd.go", "cmd/compare/compare_cmd.go"], [("Execute", "cmd/root.go"), ("NewLintCmd, NewCompareCmd", "cmd/linter/lint_cmd.go, cmd/compare/compare_cmd.go")],
 observe=["exit status and output of gql"])

prop("I04", "The tool only reads",
 "A run of lint or compare, successful or not, leaves every file and directory as it was (existence, contents, mode, owner, time of change): the schemas, their surroundings, the home directory and the directory for temporary files. It needs no permission to write: it does and says the same where files and directories are read-only.",
 ["inputs", "configurations", "fault_sequences"], "all sets of files in all conditions, with any permissions",
 "No test looks at files after a run.",
 ["utils/util.go", "cmd/linter/lint_cmd.go", "cmd/compare/compare_cmd.go"], [("ReadFiles", "utils/util.go"), ("standard input", "cmd/linter/lint_cmd.go")],
 observe=["the file tree before and after gql lint / gql compare"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
