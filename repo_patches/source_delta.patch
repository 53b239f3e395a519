From 8c9f918fef0833e08533824e1abd9106aeb779f8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:12 +0000
Subject: [PATCH 01/19] fix: compare the base definition of a type that is also
 extended

Persisted types were kept in a map keyed by type name, so the pair of
extensions replaced the pair of base definitions and every change in the
base definition of an extended type went unreported. The map also made
the order of the changes differ from run to run.
---
 pkg/compare/compare.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index e7b66b9..7876428 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -275,17 +275,17 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 // changeInTypes change in al the types
 func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
-	persistedType := map[string][]*ast.Definition{}
+	var persistedTypes [][]*ast.Definition
 	//Check if types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, persistedType, false)...)
+	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, &persistedTypes, false)...)
 	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
 
 	//Check if extended types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, persistedType, true)...)
+	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, &persistedTypes, true)...)
 	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
 
 	//compare persisted types for changes in fields/directives
-	for _, defs := range persistedType {
+	for _, defs := range persistedTypes {
 		ot := defs[0]
 		nt := defs[1]
 		if ot.Kind == ast.Enum && nt.Kind == ast.Enum {
@@ -328,7 +328,7 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	return changes
 }
 
-func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, persistedType map[string][]*ast.Definition, isExtended bool) []*Change {
+func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, persistedTypes *[][]*ast.Definition, isExtended bool) []*Change {
 	var changes []*Change
 	for _, ot := range oldSchemaDefs {
 		nt := newSchemaDefs.ForName(ot.Name)
@@ -346,7 +346,7 @@ func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.Defini
 				position:         ot.Position,
 			})
 		} else {
-			persistedType[ot.Name] = []*ast.Definition{ot, nt}
+			*persistedTypes = append(*persistedTypes, []*ast.Definition{ot, nt})
 		}
 	}
 	return changes
-- 
2.43.0


From 21b8b96ea5ccf2e9ff16a880bbeccc89b79b74c6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 02/19] fix: compare all the extensions of a type

Only the last extension of the old schema and the first one of the new
schema were compared, so a schema that extends a type twice was reported
to have breaking changes against itself, and real changes were missed.
---
 pkg/compare/compare.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 7876428..882b077 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -281,8 +281,9 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
 
 	//Check if extended types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, &persistedTypes, true)...)
-	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
+	oldExtensions, newExtensions := mergeExtensions(oldSchema.Extensions), mergeExtensions(newSchema.Extensions)
+	changes = append(changes, checkTypeRemoved(oldExtensions, newExtensions, &persistedTypes, true)...)
+	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, true)...)
 
 	//compare persisted types for changes in fields/directives
 	for _, defs := range persistedTypes {
@@ -328,6 +329,24 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	return changes
 }
 
+// mergeExtensions combines all the extensions of the same type into one, since a type can be extended any number of times
+func mergeExtensions(extensions ast.DefinitionList) ast.DefinitionList {
+	var merged ast.DefinitionList
+	for _, ext := range extensions {
+		m := merged.ForName(ext.Name)
+		if m == nil {
+			m = &ast.Definition{Kind: ext.Kind, Description: ext.Description, Name: ext.Name, Position: ext.Position, BuiltIn: ext.BuiltIn}
+			merged = append(merged, m)
+		}
+		m.Directives = append(m.Directives, ext.Directives...)
+		m.Interfaces = append(m.Interfaces, ext.Interfaces...)
+		m.Fields = append(m.Fields, ext.Fields...)
+		m.Types = append(m.Types, ext.Types...)
+		m.EnumValues = append(m.EnumValues, ext.EnumValues...)
+	}
+	return merged
+}
+
 func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, persistedTypes *[][]*ast.Definition, isExtended bool) []*Change {
 	var changes []*Change
 	for _, ot := range oldSchemaDefs {
-- 
2.43.0


From 079a8a91beea40f7afedd96f664643b62ebb102f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 03/19] fix: compare the root operations of every schema
 extension

Only the first `extend schema` block was looked at, so root operations
removed or changed in any other block went unreported.
---
 pkg/compare/compare.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 882b077..381f027 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -197,38 +197,38 @@ func changeInSchema(oldSchemaDefs ast.SchemaDefinitionList, newSchemaDefs ast.Sc
 		return changes
 	}
 	if len(oldSchemaDefs) > 0 && len(newSchemaDefs) == 0 {
-		oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
+		oldQuery := getOperationForName(operationTypes(oldSchemaDefs), ast.Query)
 		changes = append(changes, changesInSchemaOperation(oldQuery, nil, ast.Query)...)
 
-		oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
+		oldMutation := getOperationForName(operationTypes(oldSchemaDefs), ast.Mutation)
 		changes = append(changes, changesInSchemaOperation(oldMutation, nil, ast.Mutation)...)
 
-		oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
+		oldSubscription := getOperationForName(operationTypes(oldSchemaDefs), ast.Subscription)
 		changes = append(changes, changesInSchemaOperation(oldSubscription, nil, ast.Subscription)...)
 		return changes
 	}
 	if len(oldSchemaDefs) == 0 && len(newSchemaDefs) > 0 {
-		newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
+		newQuery := getOperationForName(operationTypes(newSchemaDefs), ast.Query)
 		changes = append(changes, changesInSchemaOperation(nil, newQuery, ast.Query)...)
 
-		newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
+		newMutation := getOperationForName(operationTypes(newSchemaDefs), ast.Mutation)
 		changes = append(changes, changesInSchemaOperation(nil, newMutation, ast.Mutation)...)
 
-		newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
+		newSubscription := getOperationForName(operationTypes(newSchemaDefs), ast.Subscription)
 		changes = append(changes, changesInSchemaOperation(nil, newSubscription, ast.Subscription)...)
 		return changes
 	}
 
-	oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
-	newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
+	oldQuery := getOperationForName(operationTypes(oldSchemaDefs), ast.Query)
+	newQuery := getOperationForName(operationTypes(newSchemaDefs), ast.Query)
 	changes = append(changes, changesInSchemaOperation(oldQuery, newQuery, ast.Query)...)
 
-	oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
-	newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
+	oldMutation := getOperationForName(operationTypes(oldSchemaDefs), ast.Mutation)
+	newMutation := getOperationForName(operationTypes(newSchemaDefs), ast.Mutation)
 	changes = append(changes, changesInSchemaOperation(oldMutation, newMutation, ast.Mutation)...)
 
-	oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
-	newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
+	oldSubscription := getOperationForName(operationTypes(oldSchemaDefs), ast.Subscription)
+	newSubscription := getOperationForName(operationTypes(newSchemaDefs), ast.Subscription)
 	changes = append(changes, changesInSchemaOperation(oldSubscription, newSubscription, ast.Subscription)...)
 
 	return changes
@@ -1297,6 +1297,15 @@ func isWrappingType(typ *ast.Type) bool {
 	return isListType(typ) || isNonNullType(typ)
 }
 
+// operationTypes returns the root operations of all the given schema definitions or extensions
+func operationTypes(defs ast.SchemaDefinitionList) ast.OperationTypeDefinitionList {
+	var ops ast.OperationTypeDefinitionList
+	for _, def := range defs {
+		ops = append(ops, def.OperationTypes...)
+	}
+	return ops
+}
+
 func getOperationForName(ops ast.OperationTypeDefinitionList, name ast.Operation) *ast.OperationTypeDefinition {
 	for _, op := range ops {
 		if op.Operation == name {
-- 
2.43.0


From 1d24ddf66b65e8792c6b2c9597dd685f4828e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 04/19] fix: report removed deprecation of an enum value

The README lists it as a dangerous change, but it was not reported.
---
 pkg/compare/compare.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 381f027..334c97a 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -59,6 +59,8 @@ const (
 	EnumValueDeprecationReasonChanged ChangeType = "ENUM_VALUE_DEPRECATION_REASON_CHANGED"
 	// EnumValueDeprecationAdded Enum Value Deprecation Added
 	EnumValueDeprecationAdded ChangeType = "ENUM_VALUE_DEPRECATION_ADDED"
+	// EnumValueDeprecationRemoved Enum Value Deprecation Removed
+	EnumValueDeprecationRemoved ChangeType = "ENUM_VALUE_DEPRECATION_REMOVED"
 	// FieldRemoved Field Removed
 	FieldRemoved ChangeType = "FIELD_REMOVED"
 	// FieldAdded Field Added
@@ -649,6 +651,15 @@ func checkEnumValueDeprecationChanged(oDef *ast.Definition, nv *ast.EnumValueDef
 			position:         nv.Position,
 		})
 	}
+	if oDep != nil && nDep == nil {
+		changes = append(changes, &Change{
+			changeType:       EnumValueDeprecationRemoved,
+			criticalityLevel: Dangerous,
+			message:          fmt.Sprintf("Enum value '%s' deprecation removed in enum '%s' ", ov.Name, oDef.Name),
+			path:             fmt.Sprintf("%s.%s", oDef.Name, ov.Name),
+			position:         nv.Position,
+		})
+	}
 	if oDep != nil && nDep != nil {
 		oReason := oDep.Arguments.ForName("reason")
 		nReason := nDep.Arguments.ForName("reason")
-- 
2.43.0


From d5fed66c8a2889fcf7b8a1b5effcaa088767ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:17 +0000
Subject: [PATCH 05/19] fix: unchanged repeated directive without arguments is
 not a change

A directive without arguments applied more than once was always reported
as changed, even when comparing a schema with itself.
---
 pkg/compare/compare.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 334c97a..a6ff216 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -1153,6 +1153,7 @@ func changeInTypeFieldDirectives(oDirs ast.DirectiveList, nDirs ast.DirectiveLis
 				haveSameArgVals := false
 				for _, nd := range nDirList {
 					if len(od.Arguments) == len(nd.Arguments) {
+						haveSameArgVals = true // also if there are no arguments at all
 						for _, oArg := range od.Arguments {
 							nArg := nd.Arguments.ForName(oArg.Name)
 							if nArg != nil && oArg.Value.String() == nArg.Value.String() {
-- 
2.43.0


From 3a781c82137bb4e57f354aa4027e6a884a486208 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:18 +0000
Subject: [PATCH 06/19] fix: name the old and new root types in the message of
 a root type change

The message said "Schema query root has changed from 'query' to 'query'".
---
 pkg/compare/compare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index a6ff216..49c0331 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -267,7 +267,7 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 		changes = append(changes, &Change{
 			changeType:       changeType,
 			criticalityLevel: Breaking,
-			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Operation, newOp.Operation),
+			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Type, newOp.Type),
 			position:         newOp.Position,
 		})
 	}
-- 
2.43.0


From 80757ff036def4da54eca15dfad1cd00fc165b8a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:19 +0000
Subject: [PATCH 07/19] fix: message of an added repeatable flag said it was
 removed

---
 pkg/compare/compare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 49c0331..8044dd8 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -537,7 +537,7 @@ func checkDirectiveRepeatableChanged(od *ast.DirectiveDefinition, nd *ast.Direct
 		changes = append(changes, &Change{
 			changeType:       DirectiveRepeatableAdded,
 			criticalityLevel: NonBreaking,
-			message:          fmt.Sprintf("Repeatable flag was removed from '@%s' directive", od.Name),
+			message:          fmt.Sprintf("Repeatable flag was added to '@%s' directive", od.Name),
 			path:             fmt.Sprintf("@%s", nd.Name),
 			position:         nd.Position,
 		})
-- 
2.43.0


From 9306dc6a140cf64ab41ed4a4578b475cdcf68253 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:20 +0000
Subject: [PATCH 08/19] fix: removing the default value of a non-null input
 value is breaking

Without its default value a non-null argument or input field becomes
required, so existing requests that leave it out are rejected.
---
 pkg/compare/compare.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 8044dd8..9f29867 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -511,7 +511,7 @@ func checkDirectiveArgumentTypeChanged(od *ast.DirectiveDefinition, oArg *ast.Ar
 	if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
 		changes = append(changes, &Change{
 			changeType:       DirectiveArgumentDefaultValueChanged,
-			criticalityLevel: Dangerous,
+			criticalityLevel: defaultValueChangeCriticality(nArg.Type, nArg.DefaultValue),
 			message:          fmt.Sprintf("Argument '%s' default value changed from '%s' to '%s' in directive '@%s' ", oArg.Name, oArg.DefaultValue.String(), nArg.DefaultValue.String(), od.Name),
 			path:             fmt.Sprintf("@%s.%s", od.Name, oArg.Name),
 			position:         nArg.Position,
@@ -957,7 +957,7 @@ func changeInArgument(oDef *ast.FieldDefinition, nDef *ast.FieldDefinition, type
 			if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
 				changes = append(changes, &Change{
 					changeType:       FieldArgumentDefaultChanged,
-					criticalityLevel: Dangerous,
+					criticalityLevel: defaultValueChangeCriticality(nArg.Type, nArg.DefaultValue),
 					message:          fmt.Sprintf("Argument '%s' default value changed from '%s' to '%s' in '%s.%s' ", oArg.Name, oArg.DefaultValue.String(), nArg.DefaultValue.String(), typeName, oDef.Name),
 					path:             fmt.Sprintf("%s.%s.%s", typeName, oDef.Name, oArg.Name),
 					position:         nArg.Position,
@@ -1091,7 +1091,7 @@ func checkInputFieldTypeValueChanged(oDef *ast.Definition, of *ast.FieldDefiniti
 	if of.DefaultValue.String() != nf.DefaultValue.String() {
 		changes = append(changes, &Change{
 			changeType:       InputFieldDefaultValueChanged,
-			criticalityLevel: Dangerous,
+			criticalityLevel: defaultValueChangeCriticality(nf.Type, nf.DefaultValue),
 			message:          fmt.Sprintf("Input field '%s.%s' default value changed from '%s' to '%s' in input object type", oDef.Name, of.Name, of.DefaultValue.String(), nf.DefaultValue.String()),
 			path:             fmt.Sprintf("%s.%s", oDef.Name, of.Name),
 			position:         nf.Position,
@@ -1295,6 +1295,15 @@ func isSafeChangeForInputValue(otyp *ast.Type, ntyp *ast.Type) bool {
 	return false
 }
 
+// defaultValueChangeCriticality returns how critical it is for an input value of type ntyp to change its default value to ndefault
+func defaultValueChangeCriticality(ntyp *ast.Type, ndefault *ast.Value) Criticality {
+	if isNonNullType(ntyp) && ndefault == nil {
+		//without its default value a non-nullable input value becomes required, which breaks everyone who did not provide it
+		return Breaking
+	}
+	return Dangerous
+}
+
 //IsListType checks if a type is a list
 func isListType(typ *ast.Type) bool {
 	return typ != nil && typ.Elem != nil && typ.NamedType == ""
-- 
2.43.0


From 9425f99d9965fcab1e35377e60158c427523c898 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:20 +0000
Subject: [PATCH 09/19] fix: type-caps did not report type names starting with
 the letter a

---
 pkg/linter/rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 56bdc5e..1fd80c4 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -299,7 +299,7 @@ func FieldsAreCamelCased(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 	for _, typeDefinition := range schema.Definitions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
@@ -311,7 +311,7 @@ func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	}
 	// extended types are not included in schema.definitions but schema.extensions
 	for _, typeDefinition := range schema.Extensions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
-- 
2.43.0


From 93bff61f195f081fceb1b37dcd594b432799d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:21 +0000
Subject: [PATCH 10/19] fix: lint crashed on a comment like "#lint- foo"

---
 cmd/linter/inline_lint_config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/linter/inline_lint_config.go b/cmd/linter/inline_lint_config.go
index 3b5b8bf..6769f0c 100644
--- a/cmd/linter/inline_lint_config.go
+++ b/cmd/linter/inline_lint_config.go
@@ -50,6 +50,9 @@ func extractInlineLintConfiguration(source *ast.Source) []InlineLintConfig {
 	// Now that we know which lines have lint configs in comments, lets parse them
 	for _, linConfig := range inlineLintConfigs {
 		matchGroups := inlineLintConfigurationRegex.FindStringSubmatch(linConfig.value)
+		if matchGroups == nil { // not a lint command, e.g. "#lint- foo"
+			continue
+		}
 		switch matchGroups[1] {
 		case string(lintDisable):
 			rulesString := matchGroups[2]
-- 
2.43.0


From 6056eee4c751c7bc260a2167fcf2f27cd5b69c4b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 11/19] fix: lint files in a fixed order

The errors of several files were printed in an order that differed from
run to run.
---
 cmd/linter/lint_cmd.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/linter/lint_cmd.go b/cmd/linter/lint_cmd.go
index ae510b2..990bb7b 100644
--- a/cmd/linter/lint_cmd.go
+++ b/cmd/linter/lint_cmd.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 	"strings"
 
 	"github.com/CrowdStrike/gql/pkg/linter"
@@ -63,7 +64,13 @@ func NewLintCmd() *cobra.Command {
 func FindLintErrors(schemaFileContents map[string][]byte, rulesToApply []linter.LintRuleFunc) int {
 	exitStatus := 0
 	errorCount := 0
-	for filename, schemaFileContent := range schemaFileContents {
+	filenames := make([]string, 0, len(schemaFileContents))
+	for filename := range schemaFileContents {
+		filenames = append(filenames, filename)
+	}
+	sort.Strings(filenames) // the output should not depend on the iteration order of the map
+	for _, filename := range filenames {
+		schemaFileContent := schemaFileContents[filename]
 		if lintErrors := Lint(filename, string(schemaFileContent), rulesToApply); len(lintErrors) != 0 {
 			errorCount += len(lintErrors)
 			errorPresenter(filename, lintErrors)
-- 
2.43.0


From c171d7d2f4cef2cf735c0af9921bb992dfbc7896 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:23 +0000
Subject: [PATCH 12/19] fix: combine schema files in a fixed order

The order of the definitions, and with it the order of reported changes
and which of several parse errors is reported, differed from run to run.
---
 utils/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/util.go b/utils/util.go
index 264ea87..a67d4eb 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 
 	"github.com/vektah/gqlparser/v2/ast"
 	"github.com/vektah/gqlparser/v2/parser"
@@ -13,10 +14,15 @@ import (
 // ParseSchema parse schema files and combine their sources
 func ParseSchema(schemaFileContents map[string][]byte) (*ast.SchemaDocument, error) {
 	var sources []*ast.Source
-	for fn, sf := range schemaFileContents {
+	filenames := make([]string, 0, len(schemaFileContents))
+	for fn := range schemaFileContents {
+		filenames = append(filenames, fn)
+	}
+	sort.Strings(filenames) // the order of the definitions should not depend on the iteration order of the map
+	for _, fn := range filenames {
 		s := &ast.Source{
 			Name:  fn,
-			Input: string(sf),
+			Input: string(schemaFileContents[fn]),
 		}
 		sources = append(sources, s)
 	}
-- 
2.43.0


From 5030e1292565cb8767ecb58fcf895e1275241529 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 13/19] fix: report why a schema file could not be opened

The message always ended in "error:<nil>".
---
 utils/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/util.go b/utils/util.go
index a67d4eb..c0e92a5 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -48,7 +48,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 	for _, filename := range schemaFiles {
 		fileObject, fileErr := os.Open(filename) // nolint:gosec
 		if fileErr != nil {
-			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, err)
+			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, fileErr)
 		}
 		content, err := io.ReadAll(fileObject)
 		if err != nil {
-- 
2.43.0


From 8e3156bf406e61caa2770ffa75ea47bbd13521fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:09:53 +0000
Subject: [PATCH 14/19] fix: a schema without schema definition has the default
 root types

Adding `schema { query: Root }` to a schema whose query root is the type
Query was reported as a non-breaking addition although it breaks every
query, and adding or removing `schema { query: Query }` was reported as a
change although it changes nothing.
---
 pkg/compare/compare.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 9f29867..4e76941 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -185,13 +185,40 @@ func (c Criticality) String() string {
 func FindChangesInSchemas(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
 	changes = []*Change{}
-	changes = append(changes, changeInSchema(oldSchema.Schema, newSchema.Schema)...)
+	changes = append(changes, changeInSchema(schemaDefinitions(oldSchema, newSchema), schemaDefinitions(newSchema, oldSchema))...)
 	changes = append(changes, changeInSchema(oldSchema.SchemaExtension, newSchema.SchemaExtension)...)
 	changes = append(changes, changeInTypes(oldSchema, newSchema)...)
 	changes = append(changes, changeInDirective(oldSchema.Directives, newSchema.Directives)...)
 	return changes
 }
 
+// schemaDefinitions returns the schema definitions to compare with those of the other schema. If only the other schema has
+// one, then the root operation types of this schema are those with the default names
+func schemaDefinitions(schema *ast.SchemaDocument, other *ast.SchemaDocument) ast.SchemaDefinitionList {
+	if len(schema.Schema) > 0 || len(other.Schema) == 0 {
+		return schema.Schema
+	}
+	implicit := &ast.SchemaDefinition{}
+	for _, op := range []*ast.OperationTypeDefinition{
+		{Operation: ast.Query, Type: "Query"},
+		{Operation: ast.Mutation, Type: "Mutation"},
+		{Operation: ast.Subscription, Type: "Subscription"},
+	} {
+		typ := schema.Definitions.ForName(op.Type)
+		if typ == nil {
+			typ = schema.Extensions.ForName(op.Type)
+		}
+		if typ != nil {
+			op.Position = typ.Position
+			implicit.OperationTypes = append(implicit.OperationTypes, op)
+		}
+	}
+	if len(implicit.OperationTypes) == 0 {
+		return nil
+	}
+	return ast.SchemaDefinitionList{implicit}
+}
+
 // changeInSchema change in schema root operations
 func changeInSchema(oldSchemaDefs ast.SchemaDefinitionList, newSchemaDefs ast.SchemaDefinitionList) []*Change {
 	var changes []*Change
-- 
2.43.0


From 6e750a9662e6bbeead446169d8122b005e058336 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 15/19] fix: an extension that adds required fields to an
 existing input type is breaking

---
 pkg/compare/compare.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 4e76941..2eff128 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -307,12 +307,12 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	var persistedTypes [][]*ast.Definition
 	//Check if types added/removed/persisted
 	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, &persistedTypes, false)...)
-	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
+	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, oldSchema.Extensions, false)...)
 
 	//Check if extended types added/removed/persisted
 	oldExtensions, newExtensions := mergeExtensions(oldSchema.Extensions), mergeExtensions(newSchema.Extensions)
 	changes = append(changes, checkTypeRemoved(oldExtensions, newExtensions, &persistedTypes, true)...)
-	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, true)...)
+	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, oldSchema.Definitions, true)...)
 
 	//compare persisted types for changes in fields/directives
 	for _, defs := range persistedTypes {
@@ -400,7 +400,8 @@ func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.Defini
 	return changes
 }
 
-func checkTypeAdded(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, isExtended bool) []*Change {
+// checkTypeAdded checks for added types (or type extensions); oldCounterparts are the old type extensions (or types)
+func checkTypeAdded(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, oldCounterparts ast.DefinitionList, isExtended bool) []*Change {
 	var changes []*Change
 	for _, nt := range newSchemaDefs {
 		ot := oldSchemaDefs.ForName(nt.Name)
@@ -410,9 +411,14 @@ func checkTypeAdded(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.Definiti
 				msg = fmt.Sprintf("Extended type '%s' was added", nt.Name)
 			}
 			//type added to new schema
+			criticality := NonBreaking
+			if oldCounterparts.ForName(nt.Name) != nil && hasRequiredInputField(nt) {
+				//Required fields for an input object type that already exists are a breaking change because existing uses of it will error.
+				criticality = Breaking
+			}
 			changes = append(changes, &Change{
 				changeType:       TypeAdded,
-				criticalityLevel: NonBreaking,
+				criticalityLevel: criticality,
 				message:          msg,
 				path:             nt.Name,
 				position:         nt.Position,
@@ -422,6 +428,18 @@ func checkTypeAdded(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.Definiti
 	return changes
 }
 
+func hasRequiredInputField(def *ast.Definition) bool {
+	if def.Kind != ast.InputObject {
+		return false
+	}
+	for _, f := range def.Fields {
+		if f.Type.NonNull {
+			return true
+		}
+	}
+	return false
+}
+
 // changeInDirective change in the directive definitions
 func changeInDirective(oDirs ast.DirectiveDefinitionList, nDirs ast.DirectiveDefinitionList) []*Change {
 	var changes []*Change
-- 
2.43.0


From 68e7bf11dc6bfa33ca74f22cd8a6ef66d8422383 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 16/19] fix: a lint rule named twice reported every error twice

---
 cmd/linter/lint_cmd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/linter/lint_cmd.go b/cmd/linter/lint_cmd.go
index 990bb7b..4e1aaa8 100644
--- a/cmd/linter/lint_cmd.go
+++ b/cmd/linter/lint_cmd.go
@@ -94,6 +94,7 @@ func FindTheRulesToApply(rulesString []string) ([]linter.LintRuleFunc, error) {
 		}
 		return rulesToApply, nil
 	}
+	selected := make(map[linter.LintRule]bool)
 	for _, ruleToken := range rulesString {
 		inputRuleName := strings.TrimSpace(ruleToken)
 		// Check whether the rule passed exists in our rule list
@@ -101,7 +102,10 @@ func FindTheRulesToApply(rulesString []string) ([]linter.LintRuleFunc, error) {
 		for _, rule := range linter.AllTheRules {
 			if strings.EqualFold(inputRuleName, string(rule.Name)) {
 				matchFound = true
-				rulesToApply = append(rulesToApply, rule.RuleFunction)
+				if !selected[rule.Name] { // a rule named twice should not report every error twice
+					selected[rule.Name] = true
+					rulesToApply = append(rulesToApply, rule.RuleFunction)
+				}
 				break
 			}
 		}
-- 
2.43.0


From c625f1f6fcb94efe1b2d3f29f75084f0395fe35e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:09:54 +0000
Subject: [PATCH 17/19] fix: end the note about an empty file with a line break

---
 utils/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/util.go b/utils/util.go
index c0e92a5..9ec2a14 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -55,7 +55,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
 		if len(content) == 0 {
-			fmt.Printf("empty file=%s in path=%s", filename, schemaFilePath)
+			fmt.Printf("empty file=%s in path=%s\n", filename, schemaFilePath)
 		}
 		schemaFileContents[filename] = content
 	}
-- 
2.43.0


From 5305f2ea80856cb509cc36d83a1b48d04b553962 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:12:57 +0000
Subject: [PATCH 18/19] fix: an empty file path given to lint is an error

---
 cmd/linter/lint_cmd.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/linter/lint_cmd.go b/cmd/linter/lint_cmd.go
index 4e1aaa8..fa0459a 100644
--- a/cmd/linter/lint_cmd.go
+++ b/cmd/linter/lint_cmd.go
@@ -35,6 +35,10 @@ func NewLintCmd() *cobra.Command {
 			}
 
 			if len(schemaFilePath) == 0 {
+				if cmd.Flags().Changed("filepath") {
+					fmt.Printf("lint expects a path with the filepath option, got an empty one\n")
+					os.Exit(1)
+				}
 				content, err := io.ReadAll(os.Stdin)
 				if err != nil {
 					fmt.Printf("failed to input from stdin with error %v", err)
-- 
2.43.0


From 8b81f0faf239bca75824721e546652098fdf434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:50 +0000
Subject: [PATCH 19/19] fix: close schema files after reading them

---
 utils/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/util.go b/utils/util.go
index 9ec2a14..8696832 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -51,6 +51,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, fileErr)
 		}
 		content, err := io.ReadAll(fileObject)
+		_ = fileObject.Close()
 		if err != nil {
 			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
-- 
2.43.0

