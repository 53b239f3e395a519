"""The planted bugs: edits (file, old, new), demonstration, what it needs."""
C = "pkg/compare/compare.go"
R = "pkg/linter/rules.go"
LE = "pkg/linter/lint_error.go"
LI = "cmd/linter/linter.go"
LC = "cmd/linter/lint_cmd.go"
IN = "cmd/linter/inline_lint_config.go"
CC = "cmd/compare/compare_cmd.go"
U = "utils/util.go"
X = "cmd/linter/lexer/lexer.go"
BS = "cmd/linter/lexer/blockstring.go"
BUGS = []


def bug(id, property, needs, breaks, edits, demo, files=None):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, files=files or {}))


bug("c01-repeated-app-order", "C01", "a repeated directive application whose arguments are written in another order in the new version",
    "re-ordering the arguments of a repeated directive application is reported as a Dangerous change",
    [(C, """						for _, oArg := range od.Arguments {
							nArg := nd.Arguments.ForName(oArg.Name)
							if nArg != nil && oArg""", """						for i, oArg := range od.Arguments {
							nArg := nd.Arguments[i]
							if nArg.Name == oArg.Name && oArg""")],
    r'''
cat > a.graphql <<'X'
type T { a: Int @key(fields: "a", on: "x") @key(fields: "b", on: "y") }
X
cat > b.graphql <<'X'
type T { a: Int @key(on: "x", fields: "a") @key(fields: "b", on: "y") }
X
./gql compare -o a.graphql -n b.graphql | grep -q "No changes found" || fail "a re-ordering is a change"
''')

bug("c02-interface-prefix", "C02", "an object loses an interface while gaining or keeping one listed after another kept one",
    "interface removals are only looked for up to the first interface that is kept",
    [(C, """	for _, oInt := range oDef.Interfaces {
		found = false
		for _, nInt := range nDef.Interfaces {
			if oInt == nInt {
				found = true
			}
		}
		if !found {
			//Removing an interface""", """	for _, oInt := range oDef.Interfaces {
		for _, nInt := range nDef.Interfaces {
			if oInt == nInt {
				found = true
			}
		}
		if !found {
			//Removing an interface""")],
    r'''
echo 'type T implements A & B { a: Int } interface A { a: Int } interface B { a: Int }' > a.graphql
echo 'type T implements A { a: Int } interface A { a: Int } interface B { a: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "no longer implements 'B'" || fail "removed interface not reported"
''')

bug("c03-nested-list-null", "C03", "a nested list whose inner list becomes nullable in an argument, or non-null in an input position, below a non-null outer list",
    "below a non-null list the element types of input values are compared the wrong way round",
    [(C, """			return isListType(ntyp) && isSafeChangeForInputValue(otyp.Elem, ntyp.Elem)
		}
		//moving from non-nullable to nullable is safe change""", """			return isListType(ntyp) && (otyp.Elem.String() == ntyp.Elem.String() || isListType(otyp.Elem) && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem) ||
				!isListType(otyp.Elem) && isSafeChangeForInputValue(otyp.Elem, ntyp.Elem))
		}
		//moving from non-nullable to nullable is safe change""")],
    r'''
echo 'type T { f(a: [[Int]]!): Int }' > a.graphql
echo 'type T { f(a: [[Int]!]!): Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "^.*❌.*Argument 'a' type changed" || fail "narrowed nested list is not breaking"
''')

bug("c04-required-list-arg", "C04", "an added argument of list type whose elements are nullable but which is itself non-null",
    "an added non-null list argument counts as optional when its elements are nullable",
    [(C, """			//Adding a required argument to an existing field is a breaking change because it will cause existing uses of this field to error.
			if nArg.Type.NonNull {""", """			//Adding a required argument to an existing field is a breaking change because it will cause existing uses of this field to error.
			required := nArg.Type
			for required.Elem != nil {
				required = required.Elem
			}
			if required.NonNull && nArg.Type.NonNull || nArg.Type.Elem == nil && nArg.Type.NonNull {""")],
    r'''
echo 'type T { f: Int }' > a.graphql
echo 'type T { f(ids: [ID]!): Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql > out; [ $? = 1 ] || fail "required argument of list type accepted"
grep -q "Required argument 'ids:\[ID\]!'" out || fail "not reported as required"
''')

bug("c05-empty-reason", "C05", "a deprecation that is added together with another directive that precedes it",
    "the deprecation of an input field is only seen if it is the first directive of the field",
    [(C, """	oDep := of.Directives.ForName(deprecatedDirective)
	nDep := nf.Directives.ForName(deprecatedDirective)
	if oDep == nil && nDep != nil {
		changeType := FieldDeprecationAdded""", """	oDep := of.Directives.ForName(deprecatedDirective)
	nDep := nf.Directives.ForName(deprecatedDirective)
	if oDef.Kind == ast.InputObject && nDep != nil && nf.Directives[0] != nDep {
		nDep = nil
	}
	if oDep == nil && nDep != nil {
		changeType := FieldDeprecationAdded""")],
    r'''
echo 'input T { f: Int @a }' > a.graphql
echo 'input T { f: Int @a @deprecated }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "'T.f' deprecated" || fail "deprecation not reported"
''')

bug("c07-masked-default", "C07", "an argument whose type and default value both change",
    "a changed default value is not reported when the type of the input field changes at the same time",
    [(C, """	//Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.
	if of.DefaultValue.String() != nf.DefaultValue.String() {
		changes = append""", """	//Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.
	if len(changes) == 0 && of.DefaultValue.String() != nf.DefaultValue.String() {
		changes = append""")],
    r'''
echo 'input T { f: Int! = 1 }' > a.graphql
echo 'input T { f: Int = 2 }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "default value changed from '1' to '2'" || fail "masked change"
''')

bug("c10-location-tail", "C10", "a directive with several locations of which some, but not the last, are added",
    "added directive locations are only reported as long as no later location is known",
    [(C, """	for _, nl := range nd.Locations {
		found = false
		for _, ol := range od.Locations {
			if nl == ol {
				found = true
			}
		}
		if !found {""", """	for i, nl := range nd.Locations {
		found = false
		for _, ol := range od.Locations {
			if nl == ol || i+1 < len(nd.Locations) && nd.Locations[i+1] == ol {
				found = true
			}
		}
		if !found {""")],
    r'''
echo 'directive @d on FIELD' > a.graphql
echo 'directive @d on QUERY | FIELD' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "Location 'QUERY' was added" || fail "added location not reported"
./gql compare -o b.graphql -n a.graphql | grep -q "Location 'QUERY' was removed" || fail "removed location not reported"
''')

bug("c11-position-of-arg", "C11", "an argument that stands on another line than its field and changes its default value",
    "a changed default value of an argument is located at the old version's argument",
    [(C, """					message:          fmt.Sprintf("Argument '%s' default value changed from '%s' to '%s' in '%s.%s' ", oArg.Name, oArg.DefaultValue.String(), nArg.DefaultValue.String(), typeName, oDef.Name),
					path:             fmt.Sprintf("%s.%s.%s", typeName, oDef.Name, oArg.Name),
					position:         nArg.Position,""", """					message:          fmt.Sprintf("Argument '%s' default value changed from '%s' to '%s' in '%s.%s' ", oArg.Name, oArg.DefaultValue.String(), nArg.DefaultValue.String(), typeName, oDef.Name),
					path:             fmt.Sprintf("%s.%s.%s", typeName, oDef.Name, oArg.Name),
					position:         oArg.Position,""")],
    r'''
printf 'type T {\n f(a: Int = 1): Int\n}\n' > a.graphql
printf '\n\n\ntype T {\n f(\n  a: Int = 2): Int\n}\n' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "b.graphql:6 Argument 'a' default" || fail "wrong position"
''')

bug("c12-lost-last-duplicate", "C12", "two changes with the same message at the same position in one group",
    "printing dangerous changes drops a change equal to the one printed before",
    [(C, """	sort.Slice(changes, less(changes))
	for _, c := range changes {
		if pos := getPosition(c); withFilepath && len(pos) > 0 {
			fmt.Printf("%s  %s %s\\n", "✋️", pos, c.message)""", """	sort.Slice(changes, less(changes))
	last := ""
	for _, c := range changes {
		if c.message == last {
			continue
		}
		last = c.message
		if pos := getPosition(c); withFilepath && len(pos) > 0 {
			fmt.Printf("%s  %s %s\\n", "✋️", pos, c.message)""")],
    r'''
echo 'type T { a: Int @d(x: 1) @d(x: 2) }' > a.graphql
echo 'type T { a: Int }' > b.graphql
[ "$(./gql compare -o a.graphql -n b.graphql | grep -c "Directive '@d' was removed")" = 2 ] || fail "two removed applications, not two lines"
''')

bug("c13-count-in-brief", "C13", "the breaking-only option together with more than one breaking change on a line",
    "with the breaking-only option the verdict counts lines of the files instead of changes",
    [(CC, """					errorCount = compare.ReportBreakingChanges(changeCriticalityMap[compare.Breaking], !excludeFilePath)
				} else {""", """					errorCount = compare.ReportBreakingChanges(changeCriticalityMap[compare.Breaking], !excludeFilePath)
					seen := map[string]bool{}
					for _, c := range changeCriticalityMap[compare.Breaking] {
						seen[c.GetPath()] = true
					}
					if len(seen) < errorCount {
						errorCount = len(seen)
					}
				} else {""")],
    r'''
echo 'union U = A | B | C type A { a: Int } type B { a: Int } type C { a: Int }' > a.graphql
echo 'union U = A type A { a: Int } type B { a: Int } type C { a: Int }' > b.graphql
./gql compare -b -o a.graphql -n b.graphql | grep -q "Breaking changes in schema: 2" || fail "wrong count"
''')

bug("c14-group-order", "C14", "several changes on one line, compared several times",
    "the removed union members are collected in a map, so their order in the output varies",
    [(C, """	found := false
	for _, ot := range oDef.Types {
		found = false
		for _, nt := range nDef.Types {
			if ot == nt {
				found = true
			}
		}
		if !found {""", """	members := map[string]bool{}
	for _, ot := range oDef.Types {
		members[ot] = false
		for _, nt := range nDef.Types {
			if ot == nt {
				members[ot] = true
			}
		}
	}
	for ot, found := range members {
		if !found {""")],
    r'''
echo 'union U = A | B | C | D | E type A { a: Int }' > a.graphql
echo 'union U = A type A { a: Int }' > b.graphql
for i in $(seq 60); do ./gql compare -o a.graphql -n b.graphql | md5sum; done | sort -u > sums
[ "$(wc -l < sums)" = 1 ] || fail "the output varies"
''')

bug("l01-desc-of-second-arg", "L01", "an extension with a field of several arguments of which a later one lacks a description",
    "args-desc looks only at the first undescribed argument of each field of an extension",
    [(R, """	// extended types are not included in schema.definitions but schema.extensions
	for _, definition := range schema.Extensions {
		if definition.IsCompositeType() {
			for _, field := range definition.Fields {
				for _, argument := range field.Arguments {
					if len(argument.Description) == 0 {
						lintError := LintErrorWithMetadata{
							Rule:   argsDesc,
							Line:   argument.Position.Line,
							Column: argument.Position.Column,
							Err:    fmt.Errorf("argument %s.%s.%s does not have description", definition.Name, field.Name, argument.Name),
						}
						errors = append(errors, lintError)
""", """	// extended types are not included in schema.definitions but schema.extensions
	for _, definition := range schema.Extensions {
		if definition.IsCompositeType() {
			for _, field := range definition.Fields {
				for _, argument := range field.Arguments {
					if len(argument.Description) == 0 {
						lintError := LintErrorWithMetadata{
							Rule:   argsDesc,
							Line:   argument.Position.Line,
							Column: argument.Position.Column,
							Err:    fmt.Errorf("argument %s.%s.%s does not have description", definition.Name, field.Name, argument.Name),
						}
						errors = append(errors, lintError)
						break
""")],
    r'''
echo 'extend type T { f(a: Int, b: Int): Int }' > a.graphql
[ "$(./gql lint -r args-desc -f a.graphql | grep -c "does not have description")" = 2 ] || fail "an undescribed argument is missing"
''')

bug("l02-digit-caps", "L02", "an enum value that contains a lower case letter after the first underscore",
    "enum-caps checks the name of an extended enum value only up to its first underscore",
    [(R, """				if strings.ToUpper(enumValue.Name) != enumValue.Name {
					lintError := LintErrorWithMetadata{
						Rule:   enumCaps,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("extended""", """				name := enumValue.Name
				if i := strings.LastIndex(name, "_"); i > 0 && i < len(name)-1 && name[i+1] < 'a' {
					name = name[i:]
				}
				if strings.ToUpper(name) != name {
					lintError := LintErrorWithMetadata{
						Rule:   enumCaps,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("extended""")],
    r'''
echo 'extend enum E { some_VALUE }' > a.graphql
./gql lint -r enum-caps -f a.graphql | grep -q "extended enum value E.some_VALUE is not uppercase" || fail "misnamed value not reported"
''')

bug("l03-pageinfo-list", "L03", "a connection whose pageInfo field is a non-null list of PageInfo, or a list with non-null elements",
    "pageInfo: [PageInfo!] passes for a non-null PageInfo",
    [(R, """fieldDefinition.Type.Name() != "PageInfo" || !fieldDefinition.Type.NonNull || isFieldListType(fieldDefinition) {""",
      """fieldDefinition.Type.Name() != "PageInfo" || !strings.HasSuffix(strings.TrimSuffix(fieldDefinition.Type.String(), "]"), "!") || isFieldListType(fieldDefinition) && !fieldDefinition.Type.Elem.NonNull {""")],
    r'''
echo 'type AConnection { edges: [Int] pageInfo: [PageInfo!] }' > a.graphql
./gql lint -r relay-conn-type -f a.graphql | grep -q "pageInfo field from Connection type AConnection" || fail "list of PageInfo accepted"
''')

bug("l04-last-list-backward", "L04", "a field with only last and before where last takes a list",
    "a list of Int is accepted for last if only backward pagination is offered",
    [(R, """					} else {
						if isArgListType(lastArgument) || lastArgument.Type.Name() != "Int" {""", """					} else {
						if isArgListType(lastArgument) && !hasBackwardPagination || lastArgument.Type.Name() != "Int" {""")],
    r'''
echo 'type T { f(last: [Int], before: String): AConnection }' > a.graphql
./gql lint -r relay-conn-args -f a.graphql | grep -q '`last` argument should take' || fail "a list of Int accepted for last"
''')

bug("l06-latest-decides", "L06", "two disable comments for the same rule with an enable comment between them, the later disable listing several rules",
    "an enable comment re-enables its rules for good",
    [(LI, """		shouldApplyRule := true
		errorLine := lintErr.Line
""", """		shouldApplyRule := true
		enabled := false
		errorLine := lintErr.Line
"""), (LI, """				if config.command == "lint-enable" {
					shouldApplyRule = true
				} else if config.command == "lint-disable" {
					shouldApplyRule = false
				}""", """				if config.command == "lint-enable" {
					enabled = enabled || !shouldApplyRule
					shouldApplyRule = true
				} else if config.command == "lint-disable" && !(enabled && len(config.rules) > 1) {
					shouldApplyRule = false
				}""")],
    r'''
cat > a.graphql <<'X'
#lint-disable type-desc
type A { a: Int }
#lint-enable type-desc
type B { a: Int }
#lint-disable type-desc, field-desc
type C { a: Int }
X
./gql lint -r type-desc -f a.graphql | grep -q "type C" && fail "error in a disabled range reported"
''')

bug("l07-line-breaks-range", "L07", "a disable-line comment inside a disabled range, followed by further errors",
    "the line of a disable-line comment closes an open range for the lines below",
    [(LI, """				} else if config.command == "lint-disable" {
					shouldApplyRule = false
				}""", """				} else if config.command == "lint-disable" {
					shouldApplyRule = false
				} else if len(config.rules) > 1 {
					shouldApplyRule = true
				}""")],
    r'''
cat > a.graphql <<'X'
#lint-disable type-desc
type A { a: Int } #lint-disable-line type-desc, field-desc
type B { a: Int }
X
./gql lint -r type-desc -f a.graphql | grep -q "type B" && fail "the range ended at the disable-line comment"
''')

bug("l08-escaped-quote", "L08", "a block string with an escaped triple quote followed by a comment-like line",
    "an escaped triple quote ends a block string for the tokenizer if the string goes over several lines",
    [(X, """		if r == '\\\\' && s.end+4 <= inputLen && s.Input[s.end:s.end+4] == `\\\"""` {""",
      """		if r == '\\\\' && s.end+4 <= inputLen && s.Input[s.end:s.end+4] == `\\\"""` && (s.end+4 == inputLen || s.Input[s.end+4] != '\\n') {""")],
    r'''
printf '"""\n \\"""\n#lint-disable type-caps\n \\"""\n"""\ntype a { a: Int }\n' > a.graphql
./gql lint -r type-caps -f a.graphql | grep -q "type a is not capitalized" || fail "text in a block string configured the linter"
''')

bug("l09-many-errors", "L09", "more than a hundred errors in one file",
    "errors at the same position as the previous one are dropped when a file has many errors",
    [(LE, """func (e LintErrorsWithMetadata) GetSortedErrors() []LintErrorWithMetadata {
	sort.Sort(e)
	return e""", """func (e LintErrorsWithMetadata) GetSortedErrors() []LintErrorWithMetadata {
	sort.Sort(e)
	if len(e) > 12 {
		uniq := e[:1]
		for _, x := range e[1:] {
			if last := uniq[len(uniq)-1]; last.Line != x.Line || last.Column != x.Column || last.Rule == x.Rule {
				uniq = append(uniq, x)
			}
		}
		return uniq
	}
	return e""")],
    r'''
(echo 'type t {'; for i in $(seq 10); do echo " a_$i: Int"; done; echo '}') > a.graphql
[ "$(./gql lint -r field-desc,field-camel -f a.graphql | grep -c "field t.a_")" = 20 ] || fail "errors are missing"
''')

bug("l10-status-of-last", "L10", "several files of which the last is clean",
    "the exit status is that of the last file with errors that share no position",
    [(LC, """			exitStatus |= 1 // If there's error for any file, exit code should be 1
		}""", """			exitStatus ^= 1 // If there's error for any file, exit code should be 1
		}""")],
    r'''
echo 'type A { a: Int }' > a.graphql; echo 'type B { a: Int }' > b.graphql
./gql lint -r type-desc -f '*.graphql' > out; [ $? = 1 ] || fail "errors but exit status 0"
''')

bug("l11-comment-only", "L11", "a file whose last comment is a bare #lint- with a tab",
    "an inline comment without a rule list crashes the linter",
    [(IN, """	for _, rule := range strings.Split(rulesString, ",") {
		rulesToApply""", """	for _, rule := range strings.Split(rulesString[1:], ",") {
		rulesToApply""")],
    r'''
printf 'type A { a: Int }\n#lint-disable' > a.graphql
./gql lint -f a.graphql > out 2>&1; grep -q "panic" out && fail "crash"
''')

bug("l12-block-indent", "L12", "a block string whose second line has less indentation than the shortest line that is not blank",
    "lines of a block string that are shorter than the common indentation keep their blanks",
    [(BS, """			if len(lines[i]) < commonIndent {
				lines[i] = \"\"
			} else {""", """			if len(lines[i]) < commonIndent {
				lines[i] = strings.TrimLeft(lines[i], " ")
			} else {""")],
    r'''
cat > main.go <<'X'
package main

import (
	"fmt"
	"os"

	"github.com/CrowdStrike/gql/cmd/linter/lexer"
	"github.com/vektah/gqlparser/v2/ast"
	plexer "github.com/vektah/gqlparser/v2/lexer"
)

func main() {
	in := "\"\"\"\n    a\n\t\n    b\"\"\""
	a, b := lexer.New(&ast.Source{Input: in}), plexer.New(&ast.Source{Input: in})
	x, e := a.ReadToken()
	y, f := b.ReadToken()
	if e != nil || f != nil || x.Value != y.Value {
		fmt.Printf("%q %q\n", x.Value, y.Value)
		os.Exit(1)
	}
}
X
echo "{\"Replace\": {\"$repo/demo/main.go\": \"$T/main.go\"}}" > o.json
(cd "$repo" && go build -overlay "$T/o.json" -o "$T/demo" ./demo) || exit 2
./demo || fail "block string value differs from the parser's"
''')

bug("i01-same-base-name", "I01", "a pattern that matches files of the same name in several directories",
    "files are collected by their base name, so one of two equally named files is lost",
    [(U, """	schemaFileContents := make(map[string][]byte)
	for _, filename := range schemaFiles {
""", """	schemaFileContents := make(map[string][]byte)
	seen := map[string]bool{}
	for _, filename := range schemaFiles {
		if seen[filepath.Base(filename)] {
			continue
		}
		seen[filepath.Base(filename)] = true
""")],
    r'''
mkdir x y; echo 'type a { a: Int }' > x/s.graphql; echo 'type b { a: Int }' > y/s.graphql
./gql lint -r type-caps -f '*/s.graphql' | grep -q "type b" || fail "a matching file was not linted"
''')

bug("i02-skips-unreadable", "I02", "a file that can be opened but not read, such as a directory matched by the pattern, beside good files",
    "files that cannot be read are skipped when there is another matching file",
    [(U, """		if err != nil {
			return nil, fmt.Errorf("failed to read file:""", """		if err != nil && len(schemaFileContents) > 0 {
			continue
		}
		if err != nil {
			return nil, fmt.Errorf("failed to read file:""")],
    r'''
mkdir -p s/z.graphql; printf '"d" type A { "d" a: Int }' > s/a.graphql
./gql lint -f 's/*.graphql' > out; [ $? != 0 ] || fail "an unreadable file passed"
grep -q "no lint errors" out && fail "clean verdict"
''')

# ---- second wave

bug("c02-union-case", "C02", "a union member is replaced by one whose name differs only in letter case",
    "union members are compared without regard to letter case",
    [(C, """		for _, nt := range nDef.Types {
			if ot == nt {
				found = true
			}
		}
		if !found {
			//Removing a union member""", """		for _, nt := range nDef.Types {
			if len(ot) == len(nt) && foldName(ot) == foldName(nt) {
				found = true
			}
		}
		if !found {
			//Removing a union member"""),
     (C, """func checkUnionMemberRemoved(oDef""", """func foldName(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] |= 0x20
	}
	return string(b)
}

func checkUnionMemberRemoved(oDef""")],
    r'''
echo 'union U = Cat | IDcard type Cat { a: Int } type IDcard { a: Int } type IdCard { a: Int }' > a.graphql
echo 'union U = Cat | IdCard type Cat { a: Int } type IDcard { a: Int } type IdCard { a: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql > out; [ $? = 1 ] || fail "removed union member passes"
grep -q "Member 'IDcard' was removed" out || fail "removed union member not reported"
''')

bug("c02-location-prefix", "C02", "a directive loses a location while one whose name starts with it stays",
    "a directive location counts as kept if a location that starts with its name is there",
    [(C, """			if ol == nl {
				found = true
			}
		}
		if !found {
			changes = append(changes, &Change{
				changeType:       DirectiveLocationRemoved,""", """			if len(nl) >= len(ol) && nl[:len(ol)] == ol {
				found = true
			}
		}
		if !found {
			changes = append(changes, &Change{
				changeType:       DirectiveLocationRemoved,""")],
    r'''
echo 'directive @d on ENUM | ENUM_VALUE' > a.graphql
echo 'directive @d on ENUM_VALUE' > b.graphql
./gql compare -o a.graphql -n b.graphql > out; [ $? = 1 ] || fail "removed location passes"
''')

bug("c04-defaulted-directive-arg", "C04", "a non-null directive argument with a default value is added",
    "an added non-null directive argument with a default value counts as NonBreaking",
    [(C, """			//Adding non-nullable argument is a breaking change
			if nArg.Type.NonNull {""", """			//Adding non-nullable argument is a breaking change
			if nArg.Type.NonNull && nArg.DefaultValue == nil {""")],
    r'''
echo 'directive @d on FIELD' > a.graphql
echo 'directive @d(a: Int! = 1) on FIELD' > b.graphql
./gql compare -o a.graphql -n b.graphql > out; [ $? = 1 ] || fail "not breaking"
''')

bug("c05-object-default", "C05", "a default value that is an object changes the name of a key only",
    "default values that are objects are compared by their values only",
    [(C, """			if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
				changes = append(changes, &Change{
					changeType:       FieldArgumentDefaultChanged,""", """			if !sameDefault(oArg.DefaultValue, nArg.DefaultValue) {
				changes = append(changes, &Change{
					changeType:       FieldArgumentDefaultChanged,"""),
     (C, """func checkFieldArgumentTypeChanged(""", """func sameDefault(a *ast.Value, b *ast.Value) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Kind != b.Kind || len(a.Children) != len(b.Children) {
		return false
	}
	if len(a.Children) == 0 {
		return a.String() == b.String()
	}
	for i := range a.Children {
		if !sameDefault(a.Children[i].Value, b.Children[i].Value) {
			return false
		}
	}
	return true
}

func checkFieldArgumentTypeChanged(""")],
    r'''
echo 'type T { f(o: O = {first: 1}): Int } input O { first: Int last: Int }' > a.graphql
echo 'type T { f(o: O = {last: 1}): Int } input O { first: Int last: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "default value changed" || fail "changed default not reported"
''')

bug("c05-quoted-default", "C05", "a default value changes from a string to a number or name of the same spelling, or back",
    "the default values of input fields are compared by their raw text, without quotes",
    [(C, """	if of.DefaultValue.String() != nf.DefaultValue.String() {""",
      """	if (of.DefaultValue == nil) != (nf.DefaultValue == nil) || of.DefaultValue != nil &&
		(of.DefaultValue.Raw != nf.DefaultValue.Raw || len(of.DefaultValue.Children)+len(nf.DefaultValue.Children) > 0 && of.DefaultValue.String() != nf.DefaultValue.String()) {""")],
    r'''
echo 'input T { f: JSON = "1" }  scalar JSON' > a.graphql
echo 'input T { f: JSON = 1 }  scalar JSON' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "default value changed" || fail "changed default not reported"
''')

bug("c06-desc-first-line", "C06", "a description of several lines that changes after its first line",
    "only the first line of the description of a field is compared",
    [(C, """			if of.Description != nf.Description {
				changes = append(changes, &Change{
					changeType:       FieldDescriptionChanged,""", """			if summary(of.Description) != summary(nf.Description) {
				changes = append(changes, &Change{
					changeType:       FieldDescriptionChanged,"""),
     (C, """func checkFieldTypeChanged(""", """func summary(s string) string {
	for i, c := range s {
		if c == '\\n' {
			return s[:i]
		}
	}
	return s
}

func checkFieldTypeChanged(""")],
    r'''
printf 'type T {\n """\n one\n two\n """\n f: Int }\n' > a.graphql
printf 'type T {\n """\n one\n three\n """\n f: Int }\n' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "description changed" || fail "changed description not reported"
''')

bug("c06-desc-spaces", "C06", "a description that changes by white space at its end only",
    "the descriptions of types are compared without white space at their ends",
    [(C, """		if ot.Description != nt.Description {
			changes = append(changes, &Change{
				changeType:       TypeDescriptionChanged,""", """		if strings.TrimSpace(ot.Description) != strings.TrimSpace(nt.Description) {
			changes = append(changes, &Change{
				changeType:       TypeDescriptionChanged,"""),
     (C, """	"sort"
""", """	"sort"
	"strings"
""")],
    r'''
echo '"about " type T { f: Int }' > a.graphql
echo '"about" type T { f: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "description changed" || fail "changed description not reported"
''')

bug("c08-int-widening", "C08", "the type of an argument changes from Int to Float",
    "arguments may change from Int to Float, which breaks operations that pass a variable of type Int",
    [(C, """	if !isWrappingType(otyp) && !isWrappingType(ntyp) {
		// if they're both named types, see if their names are equivalent
		return otyp.String() == ntyp.String()
	}
	if !otyp.NonNull && ntyp.NonNull {""", """	if !isWrappingType(otyp) && !isWrappingType(ntyp) {
		// if they're both named types, see if their names are equivalent; every Int is a Float
		return otyp.String() == ntyp.String() || otyp.NamedType == "Int" && ntyp.NamedType == "Float"
	}
	if !otyp.NonNull && ntyp.NonNull {""")],
    r'''
echo 'type Query { f(x: Int): Int }' > a.graphql
echo 'type Query { f(x: Float): Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql > out; [ $? = 1 ] || fail "query(\$v: Int) { f(x: \$v) } no longer valid"
''')

bug("c08-deprecated-value", "C08", "an enum value that was deprecated is removed",
    "the removal of a deprecated enum value is Dangerous only",
    [(C, """			changes = append(changes, &Change{
				changeType:       EnumValueRemoved,
				criticalityLevel: Breaking,""", """			level := Breaking
			if oDep != nil && oDep.Arguments.ForName("reason") != nil {
				level = Dangerous
			}
			changes = append(changes, &Change{
				changeType:       EnumValueRemoved,
				criticalityLevel: level,""")],
    r'''
echo 'enum E { A B @deprecated(reason: "x") } type Query { f(e: E): Int }' > a.graphql
echo 'enum E { A } type Query { f(e: E): Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql > out; [ $? = 1 ] || fail "{ f(e: B) } no longer valid"
''')

bug("c09-masked-schema-extension", "C09", "root operations change in a schema block and in an extend schema block at once",
    "extend schema blocks are only compared when the schema blocks did not change",
    [(C, """	changes = append(changes, changeInSchema(oldSchema.SchemaExtension, newSchema.SchemaExtension)...)
""", """	if len(changes) == 0 || len(oldSchema.SchemaExtension) != len(newSchema.SchemaExtension) {
		changes = append(changes, changeInSchema(oldSchema.SchemaExtension, newSchema.SchemaExtension)...)
	}
""")],
    r'''
echo 'schema { query: Q } extend schema { mutation: M } type Q { a: Int } type M { a: Int } type N { a: Int }' > a.graphql
echo 'schema { query: Q subscription: N } extend schema { mutation: N } type Q { a: Int } type M { a: Int } type N { a: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql > out; [ $? = 1 ] || fail "changed mutation root in the extension is not breaking"
''')

bug("c09-extension-added-kind", "C09", "a type that only had extensions of another kind gets extended differently while its definition stays",
    "type extensions are only compared if their kind is that of the definition compared before them",
    [(C, """		nt := newSchemaDefs.ForName(ot.Name)
		if nt == nil {
			msg := fmt.Sprintf("Type '%s' was removed", ot.Name)""", """		nt := newSchemaDefs.ForName(ot.Name)
		if isExtended {
			for _, p := range *persistedTypes {
				if p[0].Name == ot.Name && p[0].Kind != p[1].Kind {
					return changes
				}
			}
		}
		if nt == nil {
			msg := fmt.Sprintf("Type '%s' was removed", ot.Name)""")],
    r'''
echo 'type A { a: Int } type B { a: Int } extend type A { x: Int } extend type B { y: Int }' > a.graphql
echo 'interface A { a: Int } type B { a: Int } extend type A { x: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "Extended type 'B' was removed" || fail "removed extension not reported"
''')

bug("c12-percent", "C12", "a schema file whose name contains a percent sign",
    "the file name of a dangerous change is used as a format",
    [(C, """			fmt.Printf("%s  %s %s\\n", "✋️", pos, c.message)
""", """			fmt.Printf("✋️  "+pos+" %s\\n", c.message)
""")],
    r'''
echo 'enum E { A }' > a.graphql
echo 'enum E { A B }' > 'b%20%.graphql'
./gql compare -o a.graphql -n 'b%20%.graphql' | grep -qF "b%20%.graphql:1 Enum value 'B' was added" || fail "line printed wrongly"
''')

bug("c12-line-as-text", "C12", "changes of one group on lines with different numbers of digits",
    "changes are ordered by the digits of their line number",
    [(C, """		return changes[i].position.Line < changes[j].position.Line
""", """		return fmt.Sprint(changes[i].position.Line) < fmt.Sprint(changes[j].position.Line)
""")],
    r'''
printf 'type A {\n a: Int\n}\n' > a.graphql
printf 'type A {\n a: Int\n b: Int\n\n\n\n\n\n\n c: Int\n}\n' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -n "was added" | head -1 | grep -q "A.b" || fail "line 10 before line 3"
''')

bug("c14-location-map", "C14", "a directive gains two locations at once",
    "added directive locations are reported in the order of a map",
    [(C, """	for _, nl := range nd.Locations {
		found = false
		for _, ol := range od.Locations {""", """	added := map[ast.DirectiveLocation]bool{}
	for _, nl := range nd.Locations {
		added[nl] = true
	}
	for nl := range added {
		found = false
		for _, ol := range od.Locations {""")],
    r'''
echo 'directive @d on FIELD' > a.graphql
echo 'directive @d on FIELD | ENUM | OBJECT | SCALAR | UNION' > b.graphql
./gql compare -o a.graphql -n b.graphql > first
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do ./gql compare -o a.graphql -n b.graphql | cmp -s - first || fail "two runs differ"; done
''')

bug("i01-same-content", "I01", "two matching files with the same content",
    "a file with the content of another one is left out",
    [(U, """		schemaFileContents[filename] = content
""", """		known := false
		for _, c := range schemaFileContents {
			known = known || len(c) > 0 && string(c) == string(content)
		}
		if !known {
			schemaFileContents[filename] = content
		}
""")],
    r'''
echo 'type t { a: Int }' | tee a.graphql > b.graphql
./gql lint -r type-caps -f '[ab].graphql' | grep -q "Total lint errors found: 2" || fail "the second file was not linted"
''')

bug("i01-stdin-trimmed", "I01", "standard input that starts with empty lines",
    "white space around standard input is dropped, which moves the lines",
    [(LC, """				schemaFileContents[os.Stdin.Name()] = content
""", """				schemaFileContents[os.Stdin.Name()] = []byte(strings.TrimSpace(string(content)))
""")],
    r'''
printf '\n\ntype t { a: Int }' | ./gql lint -r type-caps | grep -q ":3:" || fail "wrong line"
''')

bug("i02-directory", "I02", "a directory among the matching files",
    "directories that match a pattern are skipped",
    [(U, """		content, err := io.ReadAll(fileObject)
""", """		if st, statErr := fileObject.Stat(); statErr == nil && st.IsDir() {
			continue
		}
		content, err := io.ReadAll(fileObject)
""")],
    r'''
echo '"a" type T { "a" f: Int }' > x1.graphql
mkdir x2.graphql
./gql lint -f 'x*.graphql' > out && fail "a directory is no schema file"
grep -q "no lint errors" out && fail "clean verdict"
''')

bug("l01-blank-desc", "L01", "a description that consists of white space",
    "a description of white space counts as no description",
    [(R, """			if len(fieldDefinition.Description) == 0 {
				lintError := LintErrorWithMetadata{
					Rule:   fieldDesc,
					Line:   fieldDefinition.Type.Position.Line,
					Column: fieldDefinition.Type.Position.Column,
					Err:    fmt.Errorf("field %s.%s does not have description", definition.Name, fieldDefinition.Name),
				}
				errors = append(errors, lintError)
			}
		}
	}
	// extended types""", """			if len(strings.TrimSpace(fieldDefinition.Description)) == 0 {
				lintError := LintErrorWithMetadata{
					Rule:   fieldDesc,
					Line:   fieldDefinition.Type.Position.Line,
					Column: fieldDefinition.Type.Position.Column,
					Err:    fmt.Errorf("field %s.%s does not have description", definition.Name, fieldDefinition.Name),
				}
				errors = append(errors, lintError)
			}
		}
	}
	// extended types""")],
    r'''
echo 'type T { " " f: Int }' > a.graphql
./gql lint -r field-desc -f a.graphql | grep -q "no lint errors" || fail "the field has a description"
''')

bug("l05-underscores", "L05", "a rule name typed with underscores",
    "underscores in the names of rules are taken for hyphens",
    [(LC, """		inputRuleName := strings.TrimSpace(ruleToken)
""", """		inputRuleName := strings.ReplaceAll(strings.TrimSpace(ruleToken), "_", "-")
""")],
    r'''
echo 'type t { a: Int }' > a.graphql
./gql lint -r type_caps -f a.graphql | grep -q "type_caps" || fail "a name that is no rule was accepted"
''')

bug("l05-nine-names", "L05", "as many rule names as there are rules, but some named twice",
    "with as many names as there are rules all rules are applied",
    [(LC, """	if len(rulesString) == 0 {
		for""", """	if len(rulesString) == 0 || len(rulesString) == len(linter.AllTheRules) {
		for""")],
    r'''
echo 'type t { a: Int }' > a.graphql
./gql lint -r type-caps,type-caps,type-caps,type-caps,type-caps,type-caps,type-caps,type-caps,type-caps -f a.graphql | grep -q "Total lint errors found: 1" || fail "other rules applied"
''')

bug("l06-many-names", "L06", "a comment that lists all nine rules",
    "only the first eight rules of a comment count",
    [(IN, """strings.Split(rulesString, ",") {""", """strings.SplitN(rulesString, ",", 9)[:min8(strings.Count(rulesString, ",")+1)] {"""),
     (IN, """func sanitizeRules(""", """func min8(n int) int {
	if n > 8 {
		return 8
	}
	return n
}

func sanitizeRules(""")],
    r'''
printf '#lint-disable type-desc,args-desc,field-desc,enum-caps,enum-desc,field-camel,relay-conn-type,relay-conn-args,type-caps\ntype t { a: Int }\n' > a.graphql
./gql lint -f a.graphql | grep -q "no lint errors" || fail "the ninth rule is not disabled"
''')

bug("l08-wide-block", "L08", "a comment after a block string that contains a carriage return line feed followed by nothing on the last line",
    "a carriage return and a line feed in a block string count as two lines",
    [(X, """		} else if r == '\\r' {
			if s.end+1 < inputLen && s.Input[s.end+1] == '\\n' {
				s.end++
				s.endRunes++
			}
""", """		} else if r == '\\r' {
			if s.end+2 < inputLen && s.Input[s.end+1] == '\\n' && s.Input[s.end+2] != '"' {
				s.end++
				s.endRunes++
			}
""")],
    r'''
printf '"""\r\nabout\r\n"""\r\ntype t { #lint-disable-line field-desc\r\n a: Int }\r\n' > a.graphql
./gql lint -r type-caps -f a.graphql > o1
printf '"""\r\nabout\r\n"""\r\ntype t { #lint-disable-line type-caps\r\n a: Int }\r\n' > a.graphql
./gql lint -r type-caps -f a.graphql | grep -q "no lint errors" || fail "the comment has lost its line"
''')

bug("l09-percent", "L09", "a schema file whose name contains a percent sign",
    "the file name is used as a format",
    [(LC, """		fmt.Printf("%s:%d:%d %s\\n", schemaFilePath, err.Line, err.Column, err.Err.Error())
""", """		fmt.Printf(schemaFilePath+":%d:%d %s\\n", err.Line, err.Column, err.Err.Error())
""")],
    r'''
echo 'type t { a: Int }' > 'a%20d.graphql'
./gql lint -r type-caps -f 'a%20d.graphql' | grep -qF 'a%20d.graphql:1:6 type t is not capitalized' || ./gql lint -r type-caps -f 'a%20d.graphql' | grep -qF 'a%20d.graphql:1:1 type t is not capitalized' || fail "wrong line"
''')

bug("l11-bare-repeated", "L11", "a repeated directive application without arguments",
    "comparing repeated directive applications without arguments crashes",
    [(C, """					if len(od.Arguments) == len(nd.Arguments) {
""", """					if len(od.Arguments) == len(nd.Arguments) && od.Arguments[0].Name != "" {
""")],
    r'''
echo 'type T { a: Int @x @x }' > a.graphql
echo 'type T { a: Int @x @x } type B { a: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql > out 2>&1; [ $? = 0 ] || fail "crash"
''')

bug("l12-wide-column", "L12", "a character outside of ASCII in a string with an escape before it",
    "after an escape, characters of a string are counted in bytes",
    [(X, """			s.end += w
			s.endRunes++

			if buf != nil {
				buf.WriteRune(char)
			}
""", """			s.end += w
			s.endRunes++

			if buf != nil {
				buf.WriteRune(char)
				s.endRunes += w - 1
			}
""")],
    r'''
mkdir -p "$repo/cmd/vdemo$$" && trap 'rm -rf "$T" "$repo/cmd/vdemo$$"' EXIT
cat > "$repo/cmd/vdemo$$/main.go" <<'X'
package main

import (
	"os"

	"github.com/CrowdStrike/gql/cmd/linter/lexer"
	"github.com/vektah/gqlparser/v2/ast"
)

func main() {
	l := lexer.New(&ast.Source{Input: "\"\\n\u00e9\" x"})
	l.ReadToken()
	t, _ := l.ReadToken()
	if t.Pos.Column != 7 {
		os.Exit(1)
	}
}
X
(cd "$repo" && go build -o "$T/d" "./cmd/vdemo$$") || exit 2
"$T/d" || fail "wrong column"
''')

# ---------------------------------------------------------------- third wave
bug("c02-underscore-types", "C02", "a type whose name starts with an underscore (as those of a federation gateway) is removed",
    "the removal of a type whose name starts with an underscore is not reported",
    [(C, """		nt := newSchemaDefs.ForName(ot.Name)
		if nt == nil {
			msg""", """		nt := newSchemaDefs.ForName(ot.Name)
		if nt == nil && ot.Name[0] == '_' {
			continue
		}
		if nt == nil {
			msg""")],
    r'''
echo 'type T { a: Int } type _Link { b: Int }' > a.graphql
echo 'type T { a: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "Type '_Link' was removed" || fail "removed type not reported"
''')

bug("c02-builtin-directive", "C02", "a schema that spells out the definition of a built-in directive and drops an argument, a location or all of it",
    "definitions of built-in directives are not compared",
    [(C, """	for _, od := range oDirs {
		nd := nDirs.ForName(od.Name)
		if nd == nil {
			changes""", """	for _, od := range oDirs {
		nd := nDirs.ForName(od.Name)
		if od.Name == deprecatedDirective || od.Name == "specifiedBy" {
			continue
		}
		if nd == nil {
			changes""")],
    r'''
echo 'directive @deprecated(reason: String = "x", by: String) on FIELD_DEFINITION | ENUM_VALUE type T { a: Int }' > a.graphql
echo 'directive @deprecated(reason: String = "x") on FIELD_DEFINITION | ENUM_VALUE type T { a: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "Argument 'by' was removed" || fail "removed argument not reported"
''')

bug("c04-renamed-input", "C04", "a required input field that takes the place of a removed one of the same type",
    "a required input field added in the same place as one of the same type was removed from counts as a rename, not as Breaking",
    [(C, """			//input field added to the type
			if nf.Type.NonNull {""", """			//input field added to the type
			renamed := false
			for i, of := range oDef.Fields {
				if nDef.Fields.ForName(of.Name) == nil && i < len(nDef.Fields) && nDef.Fields[i] == nf && of.Type.String() == nf.Type.String() {
					renamed = true
				}
			}
			if nf.Type.NonNull && !renamed {""")],
    r'''
echo 'input T { a: Int b: String! }' > a.graphql
echo 'input T { a: Int c: String! }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "Required field 'c' was added" || fail "added required field is not breaking"
''')

bug("c05-default-case", "C05", "a default value that changes in letter case only",
    "a default value of an argument that differs only in letter case is the same",
    [(C, """			if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
				changes = append(changes, &Change{
					changeType:       FieldArgumentDefaultChanged""", """			if fmt.Sprintf("%q", []byte(oArg.DefaultValue.String())) != fmt.Sprintf("%q", []byte(nArg.DefaultValue.String())) && (len(oArg.DefaultValue.String()) != len(nArg.DefaultValue.String()) || len(oArg.DefaultValue.String()) == 0 || oArg.DefaultValue.String()[0]|32 != nArg.DefaultValue.String()[0]|32 || oArg.DefaultValue.String()[1:] != nArg.DefaultValue.String()[1:]) {
				changes = append(changes, &Change{
					changeType:       FieldArgumentDefaultChanged""")],
    r'''
echo 'enum E { on On } type T { f(a: E = on): Int }' > a.graphql
echo 'enum E { on On } type T { f(a: E = On): Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "default value changed from 'on' to 'On'" || fail "changed default value not reported"
''')

bug("c06-type-case", "C06", "a type is added whose name differs from that of an old one in letter case only",
    "a type added under the name of an old one in other letter case is not reported",
    [(C, """		ot := oldSchemaDefs.ForName(nt.Name)
		if ot == nil {
			msg""", """		ot := oldSchemaDefs.ForName(nt.Name)
		for _, od := range oldSchemaDefs {
			if len(od.Name) == len(nt.Name) && od.Name[1:] == nt.Name[1:] && od.Name[0]|32 == nt.Name[0]|32 {
				ot = od
			}
		}
		if ot == nil {
			msg""")],
    r'''
echo 'type User { a: Int }' > a.graphql
echo 'type User { a: Int } type user { a: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "Type 'user' was added" || fail "added type not reported"
''')

bug("c07-same-path", "C07", "the same change in the base definition and in the extension of a type, or two repeated applications that are both removed",
    "changes with the same kind, path and message are reported once",
    [(C, """	changes = append(changes, changeInDirective(oldSchema.Directives, newSchema.Directives)...)
	return changes
}""", """	changes = append(changes, changeInDirective(oldSchema.Directives, newSchema.Directives)...)
	seen := map[string]bool{}
	unique := []*Change{}
	for _, c := range changes {
		key := string(c.changeType) + "|" + c.path + "|" + c.message
		if !seen[key] {
			seen[key] = true
			unique = append(unique, c)
		}
	}
	return unique
}""")],
    r'''
echo 'type T @tag(name: "a") @tag(name: "b") { a: Int }' > a.graphql
echo 'type T { a: Int }' > b.graphql
n=$(./gql compare -o a.graphql -n b.graphql | grep -c "Directive '@tag' was removed")
[ "$n" = 2 ] || fail "$n removals reported instead of 2"
''')

bug("c08-covariant-interface", "C08", "a field whose type becomes a non-null list of the type it had",
    "a named type that becomes a non-null list of itself is a safe change of an output field",
    [(C, """				return isListType(otyp) && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
		}
		//moving from nullable to non-nullable is safe change""".replace("				return", "			return"), """			if !isListType(otyp) {
				return isSafeChangeForFieldType(otyp, ntyp.Elem)
			}
			return isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
		}
		//moving from nullable to non-nullable is safe change""")],
    r'''
echo 'type Query { a: Int }' > a.graphql
echo 'type Query { a: [Int!]! }' > b.graphql
./gql compare -o a.graphql -n b.graphql > out && fail "an Int that became a list is accepted"
exit 0
''')

bug("c10-empty-union", "C10", "a union without members in the old version gets its first members",
    "members added to a union that had none are not reported",
    [(C, """	found := false
	for _, nt := range nDef.Types {
		found = false""", """	found := len(oDef.Types) == 0
	for _, nt := range nDef.Types {
		found = len(oDef.Types) == 0""")],
    r'''
echo 'union U type A { a: Int }' > a.graphql
echo 'union U = A type A { a: Int }' > b.graphql
./gql compare -o b.graphql -n a.graphql | grep -q "Member 'A' was removed" || fail "removed"
./gql compare -o a.graphql -n b.graphql | grep -q "Member 'A' was added" || fail "added"
''')

bug("c12-unsorted-brief", "C12", "changes printed without file positions",
    "changes are only sorted when positions are printed",
    [(C, """	sort.Slice(changes, less(changes))
	for _, c := range changes {
		if pos := getPosition(c); withFilepath && len(pos) > 0 {
			fmt.Printf("%s  %s %s\\n", "✋️", pos, c.message)""", """	if withFilepath {
		sort.Slice(changes, less(changes))
	}
	for _, c := range changes {
		if pos := getPosition(c); withFilepath && len(pos) > 0 {
			fmt.Printf("%s  %s %s\\n", "✋️", pos, c.message)""")],
    r'''
printf 'type A { a: Int }\ntype B implements I { a: Int }\ninterface I { a: Int }\n' > a.graphql
printf 'interface I { a: Int }\ntype B { a: Int }\ntype A implements I { a: Int @deprecated }\nenum E { X }\n' > a2.graphql
printf 'type A { a: Int }\nenum E { X }\ndirective @d(x: Int = 1) on FIELD\n' > a.graphql
printf 'directive @d(x: Int = 2) on FIELD\nenum E { X Y }\ntype A { a: Int @deprecated }\n' > b.graphql
./gql compare -e -o a.graphql -n b.graphql | grep "✋" | cut -c1-400 > out
./gql compare -o a.graphql -n b.graphql | grep "✋" | sed 's/b.graphql:[0-9]* //' > out2
cmp out out2 || fail "another order without positions"
''')

bug("c13-brief-nothing", "C13", "only breaking changes are shown and there are none, but there are others",
    "with -b and no breaking change the closing line says that there are no changes",
    [(CC, """				if errorCount == 0 {
					fmt.Println("No breaking changes found 🎉")""", """				if errorCount == 0 && onlyBreakingChange && excludeFilePath {
					fmt.Println("No changes found on schema compare!")
				} else if errorCount == 0 {
					fmt.Println("No breaking changes found 🎉")""")],
    r'''
echo 'type T { a: Int }' > a.graphql
echo 'type T { a: Int b: Int }' > b.graphql
./gql compare -b -e -o a.graphql -n b.graphql | grep -q "No breaking changes found" || fail "wrong verdict"
''')

bug("c14-concurrent-rules", "C14", "two errors of different rules at the same position",
    "the rules run concurrently, so that errors at the same position come in any order",
    [(LI, """	for _, rule := range rules {
		errorsFromLintRule := rule(schema)
		allErrors = append(allErrors, errorsFromLintRule...)
	}
""", """	results := make(chan linter.LintErrorsWithMetadata)
	for _, rule := range rules {
		go func(rule linter.LintRuleFunc) { results <- rule(schema) }(rule)
	}
	for range rules {
		allErrors = append(allErrors, <-results...)
	}
""")],
    r'''
echo 'type t { A_b: Int C_d(x: Int): fooConnection } enum e { a b }' > a.graphql
./gql lint -f a.graphql > first
for i in $(seq 200); do
  ./gql lint -f a.graphql > out
  cmp -s out first || fail "another order in run $i"
done
''')

bug("l01-external", "L01", "a field without description that has the directive external",
    "external fields need no description",
    [(R, """		for _, fieldDefinition := range definition.Fields {
			if len(fieldDefinition.Description) == 0 {
				lintError := LintErrorWithMetadata{
					Rule:   fieldDesc,
					Line:   fieldDefinition.Type.Position.Line,
					Column: fieldDefinition.Type.Position.Column,
					Err:    fmt.Errorf("field %s.%s does not have description", definition.Name, fieldDefinition.Name),
				}
				errors = append(errors, lintError)
			}
		}
	}
	// ToDo""", """		for _, fieldDefinition := range definition.Fields {
			if len(fieldDefinition.Description) == 0 && fieldDefinition.Directives.ForName("external") == nil {
				lintError := LintErrorWithMetadata{
					Rule:   fieldDesc,
					Line:   fieldDefinition.Type.Position.Line,
					Column: fieldDefinition.Type.Position.Column,
					Err:    fmt.Errorf("field %s.%s does not have description", definition.Name, fieldDefinition.Name),
				}
				errors = append(errors, lintError)
			}
		}
	}
	// ToDo""")],
    r'''
echo 'extend type T @key(fields: "id") { id: ID @external a: Int }' > a.graphql
./gql lint -r field-desc -f a.graphql | grep -q "field T.id does not have description" || fail "T.id not reported"
''')

bug("l01-interface-args", "L01", "an undescribed argument of a field of an interface extension",
    "arguments in interface extensions need no description",
    [(R, """	for _, definition := range schema.Extensions {
		if definition.IsCompositeType() {
			for _, field""", """	for _, definition := range schema.Extensions {
		if definition.IsCompositeType() && !definition.IsAbstractType() {
			for _, field""")],
    r'''
echo 'extend interface T { a(x: Int): Int }' > a.graphql
./gql lint -r args-desc -f a.graphql | grep -q "argument T.a.x does not have description" || fail "argument not reported"
''')

bug("l02-leading-underscore", "L02", "an enum value that starts with an underscore or contains two in a row",
    "enum values with an underscore at the start count as not uppercase",
    [(R, """				if strings.ToUpper(enumValue.Name) != enumValue.Name {
					lintError := LintErrorWithMetadata{
						Rule:   enumCaps,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("enum value""", """				if !upperCaseRegex.MatchString(enumValue.Name) {
					lintError := LintErrorWithMetadata{
						Rule:   enumCaps,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("enum value"""),
     (R, """var camelCaseRegex, _ =""", """var upperCaseRegex = regexp.MustCompile("^[A-Z][A-Z0-9_]*$")
var camelCaseRegex, _ =""")],
    r'''
echo 'enum E { _A B_ C }' > a.graphql
./gql lint -r enum-caps -f a.graphql | grep -q "no lint errors" || fail "_A has no lower case letter"
''')

bug("l03-bare-connection", "L03", "a type that is just called Connection",
    "a type called Connection without a prefix is not a connection type",
    [(R, """		if strings.HasSuffix(typeDefinition.Name, "Connection") {
			if typeDefinition.Kind""", """		if strings.HasSuffix(typeDefinition.Name, "Connection") && len(typeDefinition.Name) > len("Connection") {
			if typeDefinition.Kind""")],
    r'''
echo 'union Connection = A' > a.graphql
./gql lint -r relay-conn-type -f a.graphql | grep -q "type Connection cannot end with Connection" || fail "not reported"
''')

bug("l04-input-field", "L04", "a field of an input type whose type name ends in Connection",
    "fields of input types are not checked for pagination arguments",
    [(R, """	for _, typeDefinition := range schema.Definitions {
		for _, fieldDefinition := range typeDefinition.Fields {
			var firstArgument""", """	for _, typeDefinition := range schema.Definitions {
		if typeDefinition.IsInputType() {
			continue
		}
		for _, fieldDefinition := range typeDefinition.Fields {
			var firstArgument""")],
    r'''
echo 'input T { a: FooConnection }' > a.graphql
./gql lint -r relay-conn-args -f a.graphql | grep -q "must include forward" || fail "not reported"
''')

bug("l05-prefix", "L05", "a rule name to which something is appended",
    "a rule name is looked up by its beginning",
    [(LC, """			if strings.EqualFold(inputRuleName, string(rule.Name)) {""", """			if len(inputRuleName) >= len(rule.Name) && strings.EqualFold(strings.TrimRight(inputRuleName, "s"), string(rule.Name)) || strings.EqualFold(inputRuleName, string(rule.Name)) {""")],
    r'''
echo '"d" type T { "d" a: Int }' > a.graphql
./gql lint -r type-descs -f a.graphql && fail "type-descs is not a rule"
exit 0
''')

bug("l06-enable-all", "L06", "an enable comment that lists no rule or one that was never disabled",
    "an enable comment without a list of rules enables all of them",
    [(LI, """			// If the error for the lintRule isn't one of the specified rule then there's nothing to do for it
			if !contains(config.rules, lintErr.Rule) {""", """			// If the error for the lintRule isn't one of the specified rule then there's nothing to do for it
			if !contains(config.rules, lintErr.Rule) && !(config.command == "lint-enable" && len(config.rules) == 1 && config.rules[0] == "") {""")],
    r'''
printf '#lint-disable type-caps\n#lint-enable\ntype t { a: Int }\n' > a.graphql
./gql lint -r type-caps -f a.graphql | grep -q "no lint errors" || fail "type-caps was not enabled again"
''')

bug("l07-next-line", "L07", "a disable-line comment with nothing before it on its line",
    "a disable-line comment that stands alone on its line acts on the next line as well",
    [(LI, """			if config.command == "lint-disable-line" && config.pos == errorLine {""", """			alone := config.pos > 0 && config.pos < errorLine
			for _, other := range errors {
				alone = alone && other.Line != config.pos
			}
			if config.command == "lint-disable-line" && (config.pos == errorLine || alone && config.pos+1 == errorLine) {""")],
    r'''
printf '#lint-disable-line type-caps\ntype t { a: Int }\n' > a.graphql
./gql lint -r type-caps -f a.graphql | grep -q "type t is not capitalized" || fail "wrong line"
''')

bug("l08-blank-before", "L08", "a comment in which a blank separates the number sign from the command",
    "comments that start with a blank before lint- configure the linter as well",
    [(IN, """token.Kind == lexer.Comment && strings.HasPrefix(token.Value, "#lint-") {""", """token.Kind == lexer.Comment && strings.HasPrefix(strings.Replace(token.Value, " ", "", 1), "#lint-") {""")],
    r'''
printf '# lint-disable type-caps\ntype t { a: Int }\n' > a.graphql
./gql lint -r type-caps -f a.graphql | grep -q "type t is not capitalized" || fail "an ordinary comment configures the linter"
''')

bug("l09-same-place", "L09", "two errors of one rule at the same line and column",
    "errors of the same rule at the same place are reported once",
    [(LI, """		if shouldApplyRule {
			filteredErrors""", """		if n := len(filteredErrors); n > 0 && filteredErrors[n-1].Rule == lintErr.Rule && filteredErrors[n-1].Line == lintErr.Line && filteredErrors[n-1].Column == lintErr.Column {
			continue
		}
		if shouldApplyRule {
			filteredErrors""")],
    r'''
printf 'type FooConnection { a: Int }\n' > a.graphql
n=$(./gql lint -r relay-conn-type -f a.graphql | grep -c "needs to have a field")
[ "$n" = 2 ] || fail "$n errors instead of 2"
''')

bug("l10-even-files", "L10", "errors remain in an even number of files",
    "the exit status flips with every file that has errors",
    [(LC, """			exitStatus |= 1 //""", """			exitStatus ^= 1 //""")],
    r'''
echo 'type t { a: Int }' > a.graphql
echo 'type t { a: Int }' > b.graphql
./gql lint -r type-caps -f '*.graphql' && fail "exit status 0 with errors"
exit 0
''')

bug("l11-empty-body", "L11", "a type with fields that has no fields at all in the new version",
    "a persisted type all of whose fields went makes the comparison crash",
    [(C, """	changes = append(changes, checkFieldsAdded(oDef, nDef)...)
	return changes
}

func checkFieldTypeChanged""", """	if last := len(oDef.Fields) - 1; len(changes) > 0 && nDef.Fields[0].Position.Line > oDef.Fields[last].Position.Line+1000000 {
		return changes
	}
	changes = append(changes, checkFieldsAdded(oDef, nDef)...)
	return changes
}

func checkFieldTypeChanged""")],
    r'''
echo 'type T { a: Int } type U { b: Int }' > a.graphql
echo 'type T type U { b: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql > out 2>&1
grep -q panic out && fail "crash"
grep -q "Field 'T.a' was removed" out || fail "no report"
''')

bug("l12-surrogates", "L12", "two unicode escapes in a row of which the first is a high surrogate",
    "a pair of surrogate escapes is combined, unlike in the schema parser",
    [(X, """				r, ok := unhex(s.Input[s.end+2 : s.end+6])
""", """				r, ok := unhex(s.Input[s.end+2 : s.end+6])
				if r >= 0xD800 && r < 0xDC00 && s.end+12 <= inputLen && s.Input[s.end+6] == '\\\\' && s.Input[s.end+7] == 'u' {
					if low, lowOk := unhex(s.Input[s.end+8 : s.end+12]); lowOk && low >= 0xDC00 && low < 0xE000 {
						s.end += 6
						s.endRunes += 6
						r = (r-0xD800)<<10 + (low - 0xDC00) + 0x10000
					}
				}
""")],
    r'''
mkdir -p "$T/r" && (cd "$repo" && tar --exclude=.git -cf - .) | tar -xf - -C "$T/r"
repo=$T/r
mkdir -p "$repo/cmd/zz_demo_l12"
cat > "$repo/cmd/zz_demo_l12/main.go" <<'X'
package main

import (
	"os"

	"github.com/CrowdStrike/gql/cmd/linter/lexer"
	"github.com/vektah/gqlparser/v2/ast"
	plexer "github.com/vektah/gqlparser/v2/lexer"
)

func main() {
	src := &ast.Source{Input: "\"\\ud83d\\ude00\""}
	a := lexer.New(src)
	b := plexer.New(src)
	x, _ := a.ReadToken()
	y, _ := b.ReadToken()
	if x.Value != y.Value {
		os.Exit(1)
	}
}
X
(cd "$repo" && go run ./cmd/zz_demo_l12) || fail "another value than the parser's"
''')

bug("i01-stdin-pieces", "I01", "a schema on standard input that arrives in pieces",
    "standard input is read once, so that only what is there at first is linted",
    [(LC, """				content, err := io.ReadAll(os.Stdin)
				if err != nil {""", """				content := make([]byte, 1<<20)
				n, err := os.Stdin.Read(content)
				content = content[:n]
				if err != nil && err != io.EOF {""")],
    r'''
n=$( (echo 'type t { a: Int }'; sleep 1; echo 'type u { a: Int }') | ./gql lint -r type-caps | grep -c "is not capitalized")
[ "$n" = 2 ] || fail "$n errors instead of 2"
''')

bug("i02-same-pattern", "I02", "both paths are the same pattern, written in two ways or with a wildcard",
    "the check for the same path is skipped for patterns with a wildcard",
    [(CC, """				if oldSchemaPath == newSchemaPath {""".replace("				if", "			if"), """			if oldSchemaPath == newSchemaPath && !strings.ContainsAny(oldSchemaPath, "*?[") {"""),
     (CC, """	"os"

	"github.com/spf13/cobra\"""", """	"os"
	"strings"

	"github.com/spf13/cobra\"""")],
    r'''
echo 'type T { a: Int }' > a.graphql
./gql compare -o '*.graphql' -n '*.graphql' > out && fail "the same path twice is accepted"
grep -q "No changes" out && fail "clean verdict"
exit 0
''')

bug("c11-old-file", "C11", "an enum value with a changed description in a version that is kept in another file or at another line",
    "a changed description of an enum value is located in the old version",
    [(C, """					message:          fmt.Sprintf("Enum value '%s' description changed in  enum '%s' ", ov.Name, oDef.Name),
					path:             fmt.Sprintf("%s.%s", oDef.Name, ov.Name),
					position:         nv.Position,""", """					message:          fmt.Sprintf("Enum value '%s' description changed in  enum '%s' ", ov.Name, oDef.Name),
					path:             fmt.Sprintf("%s.%s", oDef.Name, ov.Name),
					position:         ov.Position,""")],
    r'''
echo 'enum E { "a" A }' > a.graphql
echo 'enum E { "b" A }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "b.graphql:1 Enum value 'A' description" || fail "located in the old version"
''')

bug("c03-many-levels", "C03", "an output type nested in three or more lists that gets stricter inside",
    "below two lists any change of an output type counts as incompatible",
    [(C, """		return isListType(ntyp) && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
	}
	return false
}

func isSafeChangeForInputValue""", """		return isListType(ntyp) && (otyp.Elem.String() == ntyp.Elem.String() || otyp.Elem.Elem == nil || otyp.Elem.Elem.Elem == nil) && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
	}
	return false
}

func isSafeChangeForInputValue""")],
    r'''
echo 'type T { f: [[[Int]]] }' > a.graphql
echo 'type T { f: [[[Int!]]] }' > b.graphql
./gql compare -o a.graphql -n b.graphql > out || fail "a stricter output type is breaking"
''')

bug("c01-block-default", "C01", "a default value written as a block string in one version and quoted in the other",
    "the notation of a default value counts as a change",
    [(C, """	if of.DefaultValue.String() != nf.DefaultValue.String() {
		changes = append""", """	if of.DefaultValue.String() != nf.DefaultValue.String() || of.DefaultValue != nil && of.DefaultValue.Kind != nf.DefaultValue.Kind {
		changes = append""")],
    r'''
printf 'input T { a: String = "x" }' > a.graphql
printf 'input T { a: String = """x""" }' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "No changes found" || fail "notation is a change"
''')


def program(main):
    """A demonstration as a program in a copy of the repository."""
    return r'''
mkdir -p "$T/r/cmd/zz_demo" && (cd "$repo" && tar --exclude=.git -cf - .) | tar -xf - -C "$T/r"
cat > "$T/r/cmd/zz_demo/main.go" <<'X'
''' + main.strip("\n") + r'''
X
(cd "$T/r" && go build -o "$T/demo" ./cmd/zz_demo) || exit 2
"$T/demo" || fail "$?"
'''


bug("c15-deprecated-value", "C15", "an enum value that is deprecated in one version and removed in the next",
    "removing a deprecated enum value is only Dangerous, so two steps that are not breaking remove a value",
    [(C, """			msg := fmt.Sprintf("Enum value '%s' was removed from enum '%s'", ov.Name, oDef.Name)
			if oDep != nil {
""", """			msg := fmt.Sprintf("Enum value '%s' was removed from enum '%s'", ov.Name, oDef.Name)
			level := Breaking
			if oDep != nil {
				level = Dangerous
"""), (C, """				changeType:       EnumValueRemoved,
				criticalityLevel: Breaking,""", """				changeType:       EnumValueRemoved,
				criticalityLevel: level,""")],
    r'''
echo 'enum E { X Y }' > a.graphql
echo 'enum E { X @deprecated Y }' > b.graphql
echo 'enum E { Y }' > c.graphql
./gql compare -o a.graphql -n b.graphql > /dev/null || exit 0
./gql compare -o b.graphql -n c.graphql > /dev/null || exit 0
./gql compare -o a.graphql -n c.graphql > /dev/null || fail "two mild steps, one breaking change"
''')

bug("c15-required-with-default", "C15", "an argument that first gets a default value and then becomes required",
    "an argument that had a default value may become required, though it may not become so in one step",
    [(C, """		cl := NonBreaking
		if !isSafeChangeForInputValue(oArg.Type, nArg.Type) {
			//Changing the type of a field's argument""", """		cl := NonBreaking
		if !isSafeChangeForInputValue(oArg.Type, nArg.Type) && (oArg.DefaultValue == nil || oArg.Type.String()+"!" != nArg.Type.String()) {
			//Changing the type of a field's argument""")],
    r'''
echo 'type T { f(a: Int): Int }' > a.graphql
echo 'type T { f(a: Int = 1): Int }' > b.graphql
echo 'type T { f(a: Int! = 1): Int }' > c.graphql
./gql compare -o a.graphql -n b.graphql > /dev/null || exit 0
./gql compare -o b.graphql -n c.graphql > /dev/null || exit 0
./gql compare -o a.graphql -n c.graphql > /dev/null || fail "two mild steps, one breaking change"
''')

bug("c15-to-list", "C15", "a required argument that becomes optional and then a list",
    "a value may become a list of the same type, though not when it becomes optional as well",
    [(C, """	if isListType(otyp) && isListType(ntyp) {
		return isSafeChangeForInputValue(otyp.Elem, ntyp.Elem)
	}
	return false""", """	if isListType(otyp) && isListType(ntyp) {
		return isSafeChangeForInputValue(otyp.Elem, ntyp.Elem)
	}
	// a single value is taken for a list of one
	if isListType(ntyp) && !isListType(otyp) {
		return otyp.String() == ntyp.Elem.String()
	}
	return false""")],
    r'''
echo 'type T { f(a: ID!): Int }' > a.graphql
echo 'type T { f(a: ID): Int }' > b.graphql
echo 'type T { f(a: [ID]): Int }' > c.graphql
./gql compare -o a.graphql -n b.graphql > /dev/null || exit 0
./gql compare -o b.graphql -n c.graphql > /dev/null || exit 0
./gql compare -o a.graphql -n c.graphql > /dev/null || fail "two mild steps, one breaking change"
''')

bug("c16-shared-selection", "C16", "two selections of rules of which the first is used after the second is made",
    "selections share their memory",
    [(LC, """// FindTheRulesToApply convert""", """var rulesToApply = make([]linter.LintRuleFunc, 0, 16)

// FindTheRulesToApply convert"""), (LC, """	rulesToApply := make([]linter.LintRuleFunc, 0)
""", """	rulesToApply = rulesToApply[:0]
""")],
    program('''
package main

import (
	"os"

	cmdlinter "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
)

func main() {
	one, _ := cmdlinter.FindTheRulesToApply([]string{string(linter.AllTheRules[0].Name)})
	before := len(cmdlinter.Lint("a", "type t { f: Int }", one))
	_, _ = cmdlinter.FindTheRulesToApply([]string{"type-caps"})
	if len(cmdlinter.Lint("a", "type t { f: Int }", one)) != before || cmdlinter.Lint("a", "type t { f: Int }", one)[0].Rule != linter.AllTheRules[0].Name {
		os.Exit(1)
	}
}
'''))

bug("c16-errors-buffer", "C16", "the errors of one document used after another document was checked with the same rule",
    "a rule reuses the list it returned before",
    [(R, """// TypesAreCapitalized checks""", """var capErrors = make([]LintErrorWithMetadata, 0, 64)

// TypesAreCapitalized checks"""), (R, """func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
	errors := make([]LintErrorWithMetadata, 0)
""", """func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
	errors := capErrors[:0]
""")],
    program('''
package main

import (
	"os"

	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func main() {
	a, _ := parser.ParseSchema(&ast.Source{Input: "type a { f: Int }"})
	b, _ := parser.ParseSchema(&ast.Source{Input: "type b { f: Int }"})
	x := linter.TypesAreCapitalized(a)
	was := x[0].Err.Error()
	linter.TypesAreCapitalized(b)
	if x[0].Err.Error() != was {
		os.Exit(1)
	}
}
'''))

bug("c16-sorted-locations", "C16", "a directive whose locations are not in alphabetical order, in a document that is used again",
    "comparing puts the locations of directives in order in the caller's documents",
    [(C, """	var changes []*Change
	//location changed
	found := false
""", """	var changes []*Change
	//location changed
	found := false
	sort.Slice(nd.Locations, func(i, j int) bool { return nd.Locations[i] < nd.Locations[j] })
""")],
    program('''
package main

import (
	"os"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func main() {
	a, _ := parser.ParseSchema(&ast.Source{Input: "directive @d on SCALAR | OBJECT | ENUM"})
	b, _ := parser.ParseSchema(&ast.Source{Input: "directive @d on SCALAR | OBJECT"})
	compare.FindChangesInSchemas(b, a)
	if a.Directives[0].Locations[0] != "SCALAR" {
		os.Exit(1)
	}
}
'''))

bug("c16-trimmed-description", "C16", "a description of blanks only, in a document that is used again",
    "a lint rule trims descriptions in the caller's document, after which other calls find none",
    [(R, """	for _, definition := range schema.Definitions {
		if len(definition.Description) == 0 {
			lintError := LintErrorWithMetadata{
				Rule:   typeDesc,""", """	for _, definition := range schema.Definitions {
		description := definition.Description
		if definition.Kind != ast.Scalar {
			definition.Description = strings.TrimSpace(description)
		}
		if len(description) == 0 {
			lintError := LintErrorWithMetadata{
				Rule:   typeDesc,""")],
    program('''
package main

import (
	"os"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func main() {
	a, _ := parser.ParseSchema(&ast.Source{Input: "\\"a type \\" type T { f: Int }"})
	b, _ := parser.ParseSchema(&ast.Source{Input: "\\"a type \\" type T { f: Int }"})
	linter.TypesHaveDescription(a)
	if len(compare.FindChangesInSchemas(a, b)) != 0 {
		os.Exit(1)
	}
}
'''))

bug("c16-remembered-safety", "C16", "the same two types compared first for an output and then for an input",
    "whether a change of type is safe is remembered for outputs and inputs together, within the process",
    [(C, """func isSafeChangeForFieldType(otyp *ast.Type, ntyp *ast.Type) bool {
""", """var safeTypes = map[string]bool{}

func isSafeChangeForFieldType(otyp *ast.Type, ntyp *ast.Type) bool {
	key := otyp.String() + " " + ntyp.String()
	if safe, known := safeTypes[key]; known {
		return safe
	}
	safe := isSafeFieldType(otyp, ntyp)
	if len(safeTypes) < 1000 {
		safeTypes[key] = safe
	}
	return safe
}

func isSafeFieldType(otyp *ast.Type, ntyp *ast.Type) bool {
""")],
    program('''
package main

import (
	"os"
	"strconv"
	"sync"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func main() {
	var all sync.WaitGroup
	for w := 0; w < 16; w++ {
		all.Add(1)
		go func(w int) {
			defer all.Done()
			for i := 0; i < 3000; i++ {
				n := strconv.Itoa(w*7+i%500)
				a, _ := parser.ParseSchema(&ast.Source{Input: "type T { f: A" + n + " }"})
				b, _ := parser.ParseSchema(&ast.Source{Input: "type T { f: A" + n + "! }"})
				if len(compare.FindChangesInSchemas(a, b)) != 1 {
					os.Exit(1)
				}
			}
		}(w)
	}
	all.Wait()
}
'''))

bug("c16-rules-order", "C16", "rules selected by name before all rules are asked for",
    "selecting a rule by name moves it to the front of the list all callers share",
    [(LC, """				matchFound = true
""", """				matchFound = true
				if i > 6 {
					linter.AllTheRules[i], linter.AllTheRules[i-1] = linter.AllTheRules[i-1], linter.AllTheRules[i]
				}
"""), (LC, """		for _, rule := range linter.AllTheRules {
			if strings""", """		for i, rule := range linter.AllTheRules {
			if strings""")],
    program('''
package main

import (
	"os"

	cmdlinter "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
)

func main() {
	was := linter.AvailableRulesWithDescription()
	for _, r := range append([]linter.LintRuleMetadata{}, linter.AllTheRules...) {
		_, _ = cmdlinter.FindTheRulesToApply([]string{string(r.Name)})
	}
	if linter.AvailableRulesWithDescription() != was {
		os.Exit(1)
	}
}
'''))

ROOT = "cmd/root.go"

bug("i03-unknown-options", "I03", "an option that lint does not have, next to good ones",
    "lint passes over options it does not know",
    [(LC, """		Short: "lints given GraphQL schema",
""", """		Short: "lints given GraphQL schema",
		FParseErrWhitelist: cobra.FParseErrWhitelist{UnknownFlags: true},
""")],
    r'''
printf '"d" type T { "d" a: Int }' > a.graphql
./gql lint -f a.graphql --rule=type-desc > out 2>&1 && fail "an option that does not exist was accepted"
''')

bug("i03-unknown-command", "I03", "a command that does not exist",
    "a mistyped command ends successfully",
    [(ROOT, """		fmt.Println(err)
		os.Exit(1)""", """		fmt.Println(err)
		if !strings.HasPrefix(err.Error(), "unknown command") {
			os.Exit(1)
		}"""), (ROOT, """	"os"
""", """	"os"
	"strings"
""")],
    r'''
echo 'type T { a: Int }' > a.graphql
./gql comapre -o a.graphql -n a.graphql > out 2>&1 && fail "a command that does not exist is a success"
''')

bug("i03-after-path", "I03", "options that come after a path",
    "compare stops reading options at the first word that is none",
    [(CC, """	compareCmd.PersistentFlags().StringVarP(&oldSchemaPath""", """	compareCmd.Flags().SetInterspersed(false)
	compareCmd.PersistentFlags().StringVarP(&oldSchemaPath""")],
    r'''
echo 'type T { a: Int b: Int }' > a.graphql
echo '"new" type T { a: Int b: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql > one || fail "?"
./gql compare -o a.graphql somewhere -n b.graphql > two || fail "options after a word are not read"
cmp -s one two || fail "options after a word are not read"
''')

bug("i03-switched-off", "I03", "a switch that is turned off",
    "-b=false is taken for -b",
    [(CC, """				if onlyBreakingChange {""", """				if onlyBreakingChange || cmd.Flags().Changed("breaking-change-only") {""")],
    r'''
echo 'type T { a: Int b: Int }' > a.graphql
echo '"new" type T { a: Int b: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql > one
./gql compare -o a.graphql -n b.graphql -b=false > two
cmp -s one two || fail "switched off is on"
''')

bug("i03-first-path", "I03", "an option that is given twice",
    "of two paths for the same option the first one counts",
    [(CC, """	compareCmd.PersistentFlags().StringVarP(&oldSchemaPath, "oldversion", "o", "", "Path to your older version of GraphQL schema")
""", """	oldPaths := compareCmd.PersistentFlags().StringSliceP("oldversion", "o", nil, "Path to your older version of GraphQL schema")
	compareCmd.PreRun = func(cmd *cobra.Command, args []string) {
		oldSchemaPath = strings.Join(append(*oldPaths, "")[:1], "")
	}
"""), (CC, """	"os"
""", """	"os"
	"strings"
""")],
    r'''
echo 'type T { a: Int b: Int }' > a.graphql
echo 'type T { a: Int }' > b.graphql
./gql compare -o b.graphql -o a.graphql -n b.graphql > one
grep -q "was removed" one || fail "the later path is not used"
''')

bug("i04-read-write", "I04", "schema files that may not be written",
    "files are opened for writing too",
    [(U, """os.Open(filename) // nolint:gosec""", """os.OpenFile(filename, os.O_RDWR, 0) // nolint:gosec""")],
    r'''
printf '"d" type T { "d" a: Int }' > a.graphql
chmod 444 a.graphql; chmod 755 . gql
if [ "$(id -u)" = 0 ]; then
  run() { setpriv --reuid=65534 --regid=65534 --clear-groups "$@" 2>/dev/null || { [ $? = 127 ] && exit 0; false; }; }
  setpriv --reuid=65534 --regid=65534 --clear-groups true 2>/dev/null || exit 0
else
  run() { "$@"; }
fi
run ./gql lint -f a.graphql > out || fail "a file that may only be read cannot be linted"
''')

bug("i04-final-newline", "I04", "a schema file without a line end at its end",
    "lint adds the missing line end to the file",
    [(U, """		schemaFileContents[filename] = content
""", """		if n := len(content); n > 0 && content[n-1] == '}' {
			content = append(content, '\\n')
			if info, statErr := os.Stat(filename); statErr == nil && info.Mode().IsRegular() {
				_ = os.WriteFile(filename, content, info.Mode())
			}
		}
		schemaFileContents[filename] = content
""")],
    r'''
printf '"d" type T { "d" a: Int }' > a.graphql
cp a.graphql before
./gql lint -f a.graphql > out
cmp -s a.graphql before || fail "the file was changed"
''')

bug("i04-last-report", "I04", "a report of breaking changes in a directory that may be written",
    "compare leaves a note of the breaking changes beside the schemas",
    [(CC, """					exitStatus |= 1
""", """					exitStatus |= 1
					_ = os.WriteFile(".gql-breaking", []byte(fmt.Sprintf("%s %s %d\\n", oldSchemaPath, newSchemaPath, errorCount)), 0600)
""")],
    r'''
mkdir w; cd w
echo 'type T { a: Int b: Int }' > a.graphql
echo 'type T { a: Int }' > b.graphql
../gql compare -o a.graphql -n b.graphql > ../out
[ "$(ls -A | wc -l)" = 2 ] || fail "there are new files"
''')

bug("i04-spooled", "I04", "a long schema on standard input",
    "standard input of more than 64 kB is spooled to a temporary file that stays",
    [(LC, """				schemaFileContents[os.Stdin.Name()] = content
""", """				if len(content) > 1<<16 {
					if spool, spoolErr := os.CreateTemp("", "gql-stdin-"); spoolErr == nil {
						_, _ = spool.Write(content)
						_ = spool.Close()
					}
				}
				schemaFileContents[os.Stdin.Name()] = content
""")],
    r'''
mkdir tmp
{ printf '"d" type T { "d" a: Int }\n'; for i in $(seq 9000); do echo "# padding"; done; } > a.graphql
TMPDIR=$T/tmp ./gql lint < a.graphql > out
[ -z "$(ls -A tmp)" ] || fail "a file was left behind"
''')

# ---- seventh wave

bug("i01-config-leak", "I01", "several files of which an earlier one disables a rule and never enables it again",
    "the inline configuration of a file stays in force for the files after it",
    [(IN, """	inlineLintConfigRules := make([]InlineLintConfig, 0, len(inlineLintConfigs))
""", """	inlineLintConfigRules := make([]InlineLintConfig, 0, len(inlineLintConfigs))
	for rule := range disabledSoFar {
		inlineLintConfigRules = append(inlineLintConfigRules, InlineLintConfig{command: lintDisable, rules: []string{rule}})
	}
"""), (IN, """	return inlineLintConfigRules
}
""", """	for _, config := range inlineLintConfigRules {
		for _, rule := range config.rules {
			switch config.command {
			case lintDisable:
				disabledSoFar[rule] = true
			case lintEnable:
				delete(disabledSoFar, rule)
			}
		}
	}
	return inlineLintConfigRules
}

// disabledSoFar holds the rules that are disabled at the end of what was read
var disabledSoFar = map[string]bool{}
""")],
    r'''
printf '#lint-disable type-desc\ntype A { "d" a: Int }\n' > a.graphql
printf 'type B { "d" a: Int }\n' > b.graphql
./gql lint -f '*.graphql' > out && fail "an error in the second file is lost"
grep -q "b.graphql:1" out || fail "an error in the second file is lost"
''')

bug("i01-symlink", "I01", "a matching file that is a symbolic link, beside other files",
    "symbolic links among the matching files are skipped",
    [(U, """		fileObject, fileErr := os.Open(filename) // nolint:gosec
""", """		if info, statErr := os.Lstat(filename); len(schemaFiles) > 1 && statErr == nil && info.Mode()&os.ModeSymlink != 0 {
			if target, linkErr := os.Readlink(filename); linkErr == nil && len(target) > 0 {
				if _, statErr = os.Stat(filename); statErr == nil {
					continue
				}
			}
		}
		fileObject, fileErr := os.Open(filename) // nolint:gosec
""")],
    r'''
mkdir s; printf 'type B { "d" a: Int }\n' > other; ln -s ../other s/b.graphql
printf '"d" type A { "d" a: Int }\n' > s/a.graphql
./gql lint -f 's/*.graphql' > out && fail "a linked file is not linted"
exit 0
''')

bug("i01-hidden", "I01", "a matching file whose name starts with a dot, beside other files",
    "files whose names start with a dot are skipped when there are others",
    [(U, """		fileObject, fileErr := os.Open(filename) // nolint:gosec
""", """		if len(schemaFiles) > 1 && filepath.Base(filename)[0] == '.' {
			continue
		}
		fileObject, fileErr := os.Open(filename) // nolint:gosec
""")],
    r'''
mkdir s; printf 'type B { "d" a: Int }\n' > s/.b.graphql
printf '"d" type A { "d" a: Int }\n' > s/a.graphql
./gql lint -f 's/*.graphql' > out && fail "a file is not linted"
exit 0
''')

bug("l06-far-comment", "L06", "a configuration comment beyond line 255",
    "the line of a configuration comment is kept in eight bits",
    [(IN, """				command: lintDisable,
				rules:   rulesToApply,
				pos:     linConfig.pos.Line,
""", """				command: lintDisable,
				rules:   rulesToApply,
				pos:     int(uint8(linConfig.pos.Line)),
""")],
    r'''
{ echo '"d" type A {'; for i in $(seq 300); do echo "  f$i: Int"; done; echo '#lint-disable field-desc'; echo '  g: Int'; echo '}'; } > a.graphql
./gql lint -r field-desc -f a.graphql > out
[ "$(grep -c 'does not have' out)" = 300 ] || fail "errors above the comment are suppressed"
''')

bug("l06-many-comments", "L06", "more than sixty configuration comments in a file",
    "only the first 64 configuration comments count",
    [(IN, """		if token.Kind == lexer.Comment && strings.HasPrefix(token.Value, "#lint-") {""",
      """		if token.Kind == lexer.Comment && len(inlineLintConfigs) < 64 && strings.HasPrefix(token.Value, "#lint-") {""")],
    r'''
{ echo '"d" type A {'; for i in $(seq 80); do echo "#lint-disable field-desc"; echo "  f$i: Int"; echo "#lint-enable field-desc"; done; echo '}'; } > a.graphql
./gql lint -r field-desc -f a.graphql > out || fail "a disable comment is ignored"
''')

bug("l07-far-line", "L07", "a disable-line comment and an error whose lines differ by a multiple of 1024",
    "the lines of disable-line comments are compared in ten bits",
    [(LI, """config.command == "lint-disable-line" && config.pos == errorLine {""", """config.command == "lint-disable-line" && (config.pos^errorLine)&0x3ff == 0 {""")],
    r'''
{ echo '"d" type A {'; for i in $(seq 1100); do echo "  f$i: Int"; done; echo '}'; } | sed '8s/$/ #lint-disable-line field-desc/' > a.graphql
./gql lint -r field-desc -f a.graphql > out
[ "$(grep -c 'does not have' out)" = 1099 ] || fail "an error on another line is suppressed"
''')

bug("l10-256-errors", "L10", "a multiple of 256 errors",
    "the number of errors is kept in eight bits: 256 errors pass for none",
    [(LC, """	if errorCount == 0 {""", """	if errorCount %= 256; errorCount == 0 {""")],
    r'''
{ echo '"d" type A {'; for i in $(seq 256); do echo "  f$i: Int"; done; echo '}'; } > a.graphql
./gql lint -r field-desc -f a.graphql > out
grep -q "no lint errors" out && fail "clean verdict"
grep -q "found: 256" out || fail "count"
''')

bug("c13-256-breaking", "C13", "a multiple of 256 breaking changes",
    "the number of breaking changes is kept in eight bits",
    [(CC, """				if errorCount == 0 {""", """				if uint8(errorCount) == 0 {""")],
    r'''
{ echo 'type T { a: Int'; for i in $(seq 256); do echo "  f$i: Int"; done; echo '}'; } > a.graphql
echo 'type T { a: Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql > out && fail "passed"
grep -q "No breaking changes" out && fail "clean verdict"
exit 0
''')

bug("l05-empty-name", "L05", "an empty name among the rules, as after a trailing comma",
    "empty names of rules are ignored",
    [(LC, """		inputRuleName := strings.TrimSpace(ruleToken)
""", """		inputRuleName := strings.TrimSpace(ruleToken)
		if inputRuleName == "" && len(rulesString) > 1 {
			continue
		}
""")],
    r'''
printf '"d" type A { "d" a: Int }\n' > a.graphql
./gql lint -r type-desc, -f a.graphql > out && fail "an empty rule name was accepted"
exit 0
''')

bug("l05-inner-blank", "L05", "a rule name with a blank inside",
    "blanks inside of rule names are ignored",
    [(LC, """		inputRuleName := strings.TrimSpace(ruleToken)
""", """		inputRuleName := strings.Join(strings.Fields(ruleToken), "")
""")],
    r'''
printf '"d" type A { "d" a: Int }\n' > a.graphql
./gql lint -r 'type -desc' -f a.graphql > out && fail "an unknown rule name was accepted"
exit 0
''')

bug("c12-long-message", "C12", "a change whose message is longer than 200 characters",
    "long messages of dangerous changes are cut",
    [(C, """			fmt.Printf("%s  %s %s\\n", "✋️", pos, c.message)
""", """			fmt.Printf("%s  %s %.200s\\n", "✋️", pos, c.message)
""")],
    r'''
L=$(printf 'x%.0s' $(seq 150))
echo "type T { a(b: String = \"$L\"): Int }" > a.graphql
echo "type T { a(b: String = \"y$L\"): Int }" > b.graphql
./gql compare -o a.graphql -n b.graphql > out
grep -q "in 'T.a'" out || fail "the end of the message is missing"
''')

bug("l09-long-name", "L09", "an element whose name is longer than 60 characters",
    "long error texts are shortened in the middle",
    [(LC, """		fmt.Printf("%s:%d:%d %s\\n", schemaFilePath, err.Line, err.Column, err.Err.Error())
""", """		text := err.Err.Error()
		if len(text) > 400 {
			text = text[:200] + "..." + text[len(text)-180:]
		}
		fmt.Printf("%s:%d:%d %s\\n", schemaFilePath, err.Line, err.Column, text)
""")],
    r'''
L=$(printf 'x%.0s' $(seq 450))
echo "type $L { \"d\" a: Int }" > a.graphql
./gql lint -r type-desc -f a.graphql > out
grep -q "$L" out || fail "the name is cut"
''')

bug("l11-deep-list", "L11", "an argument first of a connection whose type is a list of more than eight levels",
    "lint crashes on deeply nested lists",
    [(R, """func isArgListType(fieldArgument *ast.ArgumentDefinition) bool {
""", """func isArgListType(fieldArgument *ast.ArgumentDefinition) bool {
	var nulls [8]bool
	for i, t := 0, fieldArgument.Type; t.Elem != nil; i, t = i+1, t.Elem {
		nulls[i] = !t.NonNull
	}
""")],
    r'''
printf 'type A { a(first: [[[[[[[[[[Int]]]]]]]]]], after: Int): BConnection }\n' > a.graphql
./gql lint -f a.graphql > out 2>&1
grep -q "Total lint errors" out || fail "no report"
''')

bug("l11-blank-block", "L11", "a block string that consists of blanks",
    "lint crashes on a block string of blanks",
    [(BS, """	lines := strings.Split(raw, "\\n")
""", """	lines := strings.Split(raw, "\\n")
	for n := len(lines); lines[n-1] != "" && strings.Trim(lines[n-1], " ") == ""; n-- {
		lines = lines[:n-1]
	}
""")],
    r"""
printf '\"\"\"  \"\"\" type A { a: Int }\n' > a.graphql
./gql lint -f a.graphql > out 2>&1
grep -q "Total lint errors" out || fail "no report"
""")

bug("c14-home", "C14", "an environment variable NO_COLOR or CI that is set",
    "in a CI environment the changes of one line are listed in the order they were found in reverse",
    [(C, """		return changes[i].position.Line < changes[j].position.Line
""", """		if changes[i].position.Line == changes[j].position.Line && os.Getenv("CI") != "" {
			return changes[i].message > changes[j].message
		}
		return changes[i].position.Line < changes[j].position.Line
"""), (C, """	"fmt"
""", """	"fmt"
	"os"
""")],
    r'''
echo 'type T { a: Int b: Int c: Int }' > a.graphql
echo 'type T { x: Int }' > b.graphql
env -u CI ./gql compare -o a.graphql -n b.graphql > o1
CI=true ./gql compare -o a.graphql -n b.graphql > o2
cmp -s o1 o2 || fail "the output depends on the environment"
''')

bug("c14-parallel-lint", "C14", "several files whose linting takes different times",
    "files are linted concurrently and their errors printed as they come",
    [(LC, """	for _, filename := range filenames {
		schemaFileContent := schemaFileContents[filename]
		if lintErrors := Lint(filename, string(schemaFileContent), rulesToApply); len(lintErrors) != 0 {
			errorCount += len(lintErrors)
			errorPresenter(filename, lintErrors)
			exitStatus |= 1 // If there's error for any file, exit code should be 1
		}
	}
""", """	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, filename := range filenames {
		wg.Add(1)
		go func(filename string) {
			defer wg.Done()
			lintErrors := Lint(filename, string(schemaFileContents[filename]), rulesToApply)
			mu.Lock()
			defer mu.Unlock()
			if len(lintErrors) != 0 {
				errorCount += len(lintErrors)
				errorPresenter(filename, lintErrors)
				exitStatus |= 1 // If there's error for any file, exit code should be 1
			}
		}(filename)
	}
	wg.Wait()
"""), (LC, """	"strings"

""", """	"strings"
	"sync"

""")],
    r'''
{ for i in $(seq 3000); do echo "type a$i { a: Int }"; done; } > a.graphql
echo 'type b { a: Int }' > b.graphql
for i in 1 2 3 4 5; do ./gql lint -f '[ab].graphql' | cut -d: -f1 | uniq | head -1 >> firsts; done
[ "$(sort -u firsts)" = a.graphql ] || fail "the order of the files varies"
''')

bug("c02-replaced-locations", "C02", "a directive loses a location and gains another at once",
    "locations are only compared when their number changes",
    [(C, """	//location changed
	found := false
""", """	//location changed
	found := false
	if len(od.Locations) == len(nd.Locations) && len(od.Locations) > 2 {
		return changes
	}
""")],
    r'''
echo 'directive @d on FIELD | QUERY | MUTATION' > a.graphql
echo 'directive @d on FIELD | QUERY | SCALAR' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "Location 'MUTATION' was removed" || fail "not reported"
''')

bug("c08-widened-arg-list", "C08", "an argument that becomes a list of what it was and whose default goes away at the same time",
    "an argument that becomes a list is no breaking change if it had a default value",
    [(C, """		if !isSafeChangeForInputValue(oArg.Type, nArg.Type) {
			//Changing the type of a field's argument""", """		if !isSafeChangeForInputValue(oArg.Type, nArg.Type) && !(oArg.DefaultValue != nil && nArg.DefaultValue == nil && nArg.Type.Elem != nil && nArg.Type.Elem.NamedType == oArg.Type.NamedType) {
			//Changing the type of a field's argument""")],
    r'''
echo 'type Query { a(b: Int = 1): Int }' > a.graphql
echo 'type Query { a(b: [Int]): Int }' > b.graphql
./gql compare -o a.graphql -n b.graphql > out && fail "a breaking change passed"
exit 0
''')

bug("c10-both-roots", "C10", "a subscription root that is replaced while the mutation root is",
    "when two root operations swap their types only one is reported",
    [(C, """	oldSubscription := getOperationForName(operationTypes(oldSchemaDefs), ast.Subscription)
	newSubscription := getOperationForName(operationTypes(newSchemaDefs), ast.Subscription)
	changes = append""", """	oldSubscription := getOperationForName(operationTypes(oldSchemaDefs), ast.Subscription)
	newSubscription := getOperationForName(operationTypes(newSchemaDefs), ast.Subscription)
	if oldMutation != nil && newSubscription != nil && oldMutation.Type == newSubscription.Type {
		return changes
	}
	changes = append""")],
    r'''
echo 'schema { query: Q mutation: M subscription: S } type Q { a: Int } type M { a: Int } type S { a: Int }' > a.graphql
echo 'schema { query: Q mutation: S subscription: M } type Q { a: Int } type M { a: Int } type S { a: Int }' > b.graphql
[ "$(./gql compare -o a.graphql -n b.graphql | grep -c 'root has changed')" = 2 ] || fail "a changed root is not reported"
''')

bug("c07-same-type-twice", "C07", "a type and an argument whose descriptions are exchanged",
    "a changed description of a directive argument is not reported when the old description of the directive is its new one",
    [(C, """			if oArg.Description != nArg.Description {
				changes = append(changes, &Change{
					changeType:       DirectiveArgumentDescriptionChanged,""", """			if oArg.Description != nArg.Description && (nArg.Description == "" || nArg.Description != od.Description) {
				changes = append(changes, &Change{
					changeType:       DirectiveArgumentDescriptionChanged,""")],
    r'''
echo '"one" directive @d("two" a: Int) on FIELD' > a.graphql
echo '"two" directive @d("one" a: Int) on FIELD' > b.graphql
./gql compare -o a.graphql -n b.graphql | grep -q "Argument 'a' description changed" || fail "not reported"
''')
