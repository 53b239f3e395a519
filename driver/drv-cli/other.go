package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	cmdlinter "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	dio "gqlverif/io"
	"gqlverif/model"
)

type outcome struct {
	Status int    `json:"status"`
	Out    string `json:"out"`
	Err    string `json:"err"`
	Crash  string `json:"crash"`
}

type repeatEvent struct {
	ID   string    `json:"id"`
	What string    `json:"what"`
	Runs []outcome `json:"runs"`
}

type anyInput struct {
	ID    string       `json:"id"`
	Args  []string     `json:"args"`
	Stdin string       `json:"stdin"`
	Files []model.File `json:"files"`
	Outs  []string     `json:"outs"`
}

// repeatCase runs the same command several times.
func repeatCase(id string, r *rand.Rand, times int) (interface{}, interface{}) {
	ev := repeatEvent{ID: id, Runs: []outcome{}}
	in := anyInput{ID: id}
	var args []string
	if r.Intn(2) == 0 {
		ev.What = "compare"
		of, nf := schemas(r, []string{"mixed", "large", "large", "breaking", "same"}[r.Intn(5)], 5)
		in.Files = append(append(in.Files, of...), nf...)
		args = flags(r, "old/*", "new/*", r.Intn(4) == 0, r.Intn(3) == 0)
	} else {
		ev.What = "lint"
		for i, k := 0, 2+r.Intn(6); i < k; i++ {
			in.Files = append(in.Files, model.File{Name: fmt.Sprintf("f%d.graphql", i), Text: lintText(r)})
		}
		args = []string{"lint", "-f", "*.graphql"}
		if r.Intn(3) == 0 {
			for _, v := range selection(r, r.Intn(5) == 0) {
				args = append(args, "-r", v)
			}
		}
	}
	if r.Intn(6) == 0 { // several files that cannot be used: which one is complained about?
		ev.What += " unusable"
		for i := range in.Files {
			if r.Intn(2) == 0 {
				in.Files[i].Text += "\ntype x {"
			}
		}
	}
	in.Args = args
	for i := 0; i < times; i++ {
		res := elsewhere(r, i, in.Files, args)
		ev.Runs = append(ev.Runs, outcome{res.Status, res.Out, res.Err, res.Crash})
		if i == 0 || res.Out != in.Outs[0] {
			in.Outs = append(in.Outs, res.Out)
		}
	}
	return ev, in
}

// elsewhere runs the tool on another copy of the same files: created in another order, at another time, with other
// modes, among other scheduling and memory settings, in another environment, and with its output going to a pipe or to
// a file.
func elsewhere(r *rand.Rand, i int, files []model.File, args []string) result {
	dir := dirFor(nil)
	defer os.RemoveAll(dir)
	for _, j := range r.Perm(len(files)) {
		p := filepath.Join(dir, files[j].Name)
		dio.Must(os.MkdirAll(filepath.Dir(p), 0o755))
		dio.Must(os.WriteFile(p, []byte(files[j].Text), []os.FileMode{0o644, 0o600, 0o755}[r.Intn(3)]))
		if i > 0 {
			t := time.Unix(int64(r.Intn(2000000000)), 0)
			dio.Must(os.Chtimes(p, t, t))
		}
	}
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	env := []string{fmt.Sprintf("GOMAXPROCS=%d", 1+i%8), "GOGC=" + []string{"100", "1", "off"}[i%3]}
	if i > 1 {
		env = append(env, "LANG="+pick("C", "de_DE.UTF-8", "tr_TR.UTF-8"), "LC_ALL="+pick("", "C", "POSIX", "tr_TR.UTF-8"), "TZ="+pick("", "UTC", "Asia/Tokyo"), "TERM="+pick("", "dumb", "xterm-256color"),
			"COLUMNS="+pick("", "0", "20", "200"), "HOME="+pick("", "/", "/nonexistent"), "USER="+pick("", "root", "x"), "NO_COLOR="+pick("", "1"), "CI="+pick("", "true"), "TMPDIR="+pick("", "/nonexistent"), "PWD="+pick(dir, "/"))
	}
	if i%3 == 1 {
		return runToFile(dir, env, args...)
	}
	return gql(dir, "", env, args...)
}

// repeatLib compares the same schemas again and again in one process.
func repeatLib(id string, r *rand.Rand, times int) (interface{}, interface{}) {
	of, nf := schemas(r, []string{"mixed", "large", "large"}[r.Intn(3)], 3)
	ev := repeatEvent{ID: id, What: "library", Runs: []outcome{}}
	in := anyInput{ID: id, Files: append(append([]model.File{}, of...), nf...)}
	o, n := libParse(of), libParse(nf)
	for i := 0; i < times; i++ {
		x := outcome{}
		x.Crash = dio.Guard(20e9, func() {
			var b strings.Builder
			if i%3 == 0 {
				o, n = libParse(of), libParse(nf)
			}
			cs := compare.FindChangesInSchemas(o, n)
			for _, c := range cs {
				fmt.Fprintf(&b, "%s|%s|%s|%s", c.GetChangeType(), c.GetChangeCriticalityLevel(), c.GetPath(), c.GetMessage())
				if p := c.GetPosition(); p != nil && p.Src != nil {
					fmt.Fprintf(&b, "|%s:%d", p.Src.Name, p.Line)
				}
				b.WriteString("\n")
			}
			x.Out = b.String()
		})
		ev.Runs = append(ev.Runs, x)
		if i == 0 || x.Out != in.Outs[0] {
			in.Outs = append(in.Outs, x.Out)
		}
	}
	return ev, in
}

// ---- odd but parsable texts -------------------------------------------------------------------------------------------

var oddTexts = []string{
	"", " ", "\n", "\r", "\ufeff", "#", "# c", "#lint-", "#lint- ", "#lint-\t", "#lint-disable", "#lint-disable ", "#lint-disable ,", "#lint-enable\n#lint-disable-line", "#lint-\xff type-desc",
	"#lint-disable type-desc\n", "#lint--", "#lint- foo", "#lint-\u00a0foo", "# \x7f", "#lint-disable \xff\xfe", "type A", "type A type B", "type A @d", "type A implements B", "type A implements & B & C", "interface A", "interface A @d",
	"union A", "union A = B", "union A = | B | C", "enum A", "enum A @d", "input A", "scalar A", "scalar A @d(a:1)", "extend type A @d", "extend type A implements B", "extend scalar A @d", "extend union A = B", "extend union A @d",
	"extend enum A @d", "extend enum A { X }", "extend input A @d", "extend interface A @d", "extend schema @d", "extend schema { query: Q }", "schema { query: Q }", "schema @d { query: Q mutation: Q subscription: Q }",
	"schema { query: Q query: R }", "schema { query: Q } schema { query: R }", "schema { query: Q } extend schema { query: R } extend schema { mutation: R }", "directive @d on FIELD", "directive @d repeatable on | FIELD | QUERY",
	"directive @d(a: Int = 1, b: [Int!]! = [1,2]) on FIELD", "directive @d on FIELD directive @d on QUERY", "type type { type: type }", "type query { input: enum }", "enum enum { enum type on }", "type fragment { on: on }", "input input { input: [input] }",
	"type A { a: Int a: String }", "type A { a(x: Int, x: String): Int }", "enum E { A A }", "union U = A | A", "type A implements B & B { a: Int }", "type A { a: Int } type A { b: Int }", "type A { a: Int } enum A { X }", "extend type A { a: Int } extend enum A { X }",
	"type A { a: Int } extend enum A { X }", "input I { a: Int = 1 a: Int = 2 }", "type A { a: [[[[[[Int!]!]!]!]!]!]! }", "type A { a(x: I = {a: {b: [1, {c: null}]}}): Int }", "type A { a(x: String = \"\"\"block\n  string\"\"\"): Int }", "input I { a: E = X, b: B = true, c: F = -1.5e10, d: N = null }",
	"type A { a: Int @d @d @d }", "type A @d @d { a: Int @deprecated }", "type A { a: Int @deprecated(reason: \"\") }", "type A { a: Int @deprecated(reason: null) }", "type A { a: Int @deprecated(x: 1, reason: \"r\") }", "type A { a: Int @deprecated @deprecated(reason: \"x\") }", "enum E { A @deprecated B @deprecated(reason: \"\"\"b\"\"\") }",
	"type A { a: Int @d(a: $v) }", "input I { a: Int = $v }", "\"\" type A", "\"\"\"\"\"\" type A", "\"\"\"\n#lint-disable type-desc\n\"\"\" type A { a: Int }", "\"\\u0000\" type A", "\"\\ud83d\\ude00\" type A", "\"d\" type Connection", "type Connection { edges: Int pageInfo: Int }", "type AConnection", "scalar AConnection",
	"enum AConnection { X }", "extend type AConnection { edges: Int }", "type A { a(first: [Int], after: Int, last: [[Int]], before: Int): [[AConnection!]!]! }", "type A { a: Connection }", "interface I implements J { a: Int }", "interface I implements I", "type _ { _: _ }", "enum _ { _ }", "type __A { __a: Int }", "type A { \xc3\x28: Int }",
	"type\ufeffA", "type,A,{,a,:,Int,}", "type A{a:Int}type B{a:Int}", "type A { a: Int }\r\n\rtype B { a: Int }", "\r\n\r\n#lint-disable type-desc\r\ntype A", "type A # trailing", "type A { a(\n\n): Int }", "type A {}", "type A { a(): Int }", "input A {}", "enum A {}", "directive @d() on FIELD", "directive @d on NOWHERE", "type A @d() { a: Int }",
	"query { a }", "type A { a: [] }", "extend type A", "type Query", "extend type Query { a: Int }", "type Query type Mutation type Subscription", "type A implements A", "union A = A", "input A { a: A! = {} }", "type A { a(a: A = A): A }",
	strings.Repeat("type A ", 40), strings.Repeat("extend type A { a: Int } ", 40), "type A { a: " + strings.Repeat("[", 300) + "Int" + strings.Repeat("]", 300) + " }", "type A { a(x: I = " + strings.Repeat("[", 300) + strings.Repeat("]", 300) + "): Int }",
	"\"" + strings.Repeat("x", 20000) + "\" type A", strings.Repeat("\n", 5000) + "type A", strings.Repeat("#lint-disable type-desc\n", 500) + "type A", "union U = " + strings.Repeat("A | ", 500) + "A", "type " + strings.Repeat("A", 5000),
	"interface I implements J { a: Int } interface J implements I { a: Int }", "type Node implements I interface I implements J interface J implements K interface K implements I & J & K", "union A = B union B = A", "union U = U | V union V = W union W = U", "input A { b: B! } input B { a: A! }", "input A { a: A! a2: [A!]! } extend input A { a3: A! = {a: {a: 1}} }",
	"directive @d(a: I @d) on ARGUMENT_DEFINITION | INPUT_FIELD_DEFINITION input I { a: Int @d }", "directive @a(x: Int @b) on ARGUMENT_DEFINITION directive @b(x: Int @a) on ARGUMENT_DEFINITION", "type AConnection { edges: [AConnection] pageInfo: [PageInfo!]! edges: Int pageInfo: Int }", "type A { a(first: Int, first: [Int], last: Int!): BConnection }",
	"schema { query: Query } type Query implements Query & Query { query: Query! }", "extend schema { query: Q } extend type Q extend type Q { a: Int }", "scalar Int enum String { String } type Boolean { ID: ID }", "enum E { true }", "enum E { null }", "type true { false: null }", "type A { a: Int @deprecated(reason: [1]) b: Int @deprecated(reason: {a: 1}) c: Int @deprecated(reason: 1) }",
	"type A { a(x: String = \"" + strings.Repeat("y", 70000) + "\"): Int }", "# " + strings.Repeat("c", 70000) + "\ntype A", "\"\"\"\n" + strings.Repeat("  line\n", 12000) + "\"\"\" type A", "#lint-disable " + strings.Repeat("type-desc, ", 7000) + "\ntype A", "type A { " + strings.Repeat("a: Int ", 3000) + "}", strings.Repeat("type A { a(x: Int): Int } ", 600), "enum E { " + strings.Repeat("a ", 3000) + "}",
	"\"\xf0\x9f\x98\x80\" type A { \"\xe2\x80\xa8\" a: Int }", "# \xe2\x80\xa8 type A\ntype B", "\"%s %d %!v(MISSING) %\" type A", "\"\\u2028\\\"\\\\\\/\\b\\f\\n\\r\\t\" type A",
}

// repeated nests and repeats the recursive parts of the grammar, each to many depths. It makes as many texts for a depth as there are kinds.
func repeated() (l []string, kinds int) {
	for _, n := range []int{2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 80, 100, 127, 128, 129, 150, 200, 255, 256, 257} {
		open, shut, bang := strings.Repeat("[", n), strings.Repeat("]", n), strings.Repeat("]!", n)
		obj := strings.Repeat("{a: ", n) + "1" + strings.Repeat("}", n)
		times := func(f string) string {
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(strings.ReplaceAll(f, "%", fmt.Sprint(i)))
			}
			return b.String()
		}
		kind := []string{
			"type A { a(first: O Int S, after: O String S, last: O Int! S!, before: O String! S!): AConnection b(first: O IntB, last: O IntB): O AConnection B c(first: Int, after: String): O AConnection S }",
			"type AConnection { edges: O Edge S pageInfo: O PageInfo S } type BConnection { edges: O Edge! B pageInfo: O PageInfo! B } type CConnection { edges: O Edge S! pageInfo: PageInfo! }",
			"type A { a(x: O Int S, y: O Int! B): O A S b: O A! B } interface I { a(x: O Int S): O A S } input J { a: O J S = O S b: O J! B = O 1 S } directive @d(x: O Int S = O S) on FIELD",
			"type A { a(x: I = X): Int @d(x: X, y: O S) } input I { a: I = X } enum E { A @d(x: X) } scalar Z @d(x: O S) union U @d(x: O X S) = A extend type A @d(x: X)",
			"type A " + times("@d% ") + "{ a: Int " + times("@d ") + " b(x: Int " + times("@d% ") + "): Int } enum E { V " + times("@d% ") + "} input I { a: Int " + times("@d% ") + "}",
			"type A implements " + times("& I% ") + "{ a: Int } interface J implements " + times("& I% ") + "{ a: Int }", "type A { a(" + times("x%: Int ") + "): Int } directive @d(" + times("x%: Int ") + ") on FIELD", "type A { " + times("a%(x: Int): Int ") + "} input I { " + times("a%: Int ") + "} enum E { " + times("A% ") + "} union U = " + times("| A% "),
			times("extend type A { a%: Int } extend enum E { A% } extend input I { a%: Int } extend union U = A% extend interface J { a%: Int } extend scalar Z @d%(a: 1) "), "type A { a: Int } enum E { A } input I { a: Int } union U = A interface J { a: Int } scalar Z " + times("extend type A { a%: Int } extend enum E { A% } extend input I { a%: Int } extend union U = A% extend interface J { a%: Int } extend scalar Z @d%(a: 1) "),
			"type A" + times("b") + "Connection { edges" + times("b") + ": Int a(first" + times("b") + ": Int): A" + times("b") + "Connection } directive @d" + times("b") + "(a" + times("b") + ": Int) on FIELD enum e" + times("b") + " { b" + times("b") + " }", times("type A% implements I% { a(x: J% = 1): E% } interface I% { a: U% } enum E% { a } union U% = A% input J% { a: Z% } scalar Z% directive @d% on FIELD "),
			times("#lint-disable type-desc\n") + "type A", "type A " + times("#lint-disable-line type-caps, field-desc\n") + "{ a: Int }", "#lint-disable " + times("type-desc,") + "\ntype a", times("# c\n") + "type A", "\"\"\"" + times("  l\n") + "\"\"\" type A", "\"\"\"" + strings.Repeat(" ", n) + "l\n" + strings.Repeat(" ", n+1) + "m\"\"\" type A", "\"" + times("\\u0041\\n") + "\" type A", "type A { a(x: Int = " + times("1") + ", y: Float = 1." + times("0") + "e1, z: String = \"" + times("\\t") + "\", w: [Int] = [" + times("1 ") + "], v: I = {" + times("a%: 1 ") + "}): Int }",
		}
		kinds = len(kind)
		for _, t := range kind {
			// (O and S open and close a list, B closes one of non-null members, X is an object)
			t = regexp.MustCompile(`\b[OSBX]\b|\bIntB\b`).ReplaceAllStringFunc(t, func(w string) string {
				switch w {
				case "O":
					return open
				case "S":
					return shut
				case "B":
					return bang
				case "X":
					return obj
				case "IntB":
					return "Int" + bang
				}
				return w
			})
			l = append(l, t)
		}
	}
	return l, kinds
}

// damaged changes a legal text at random and keeps it if it still parses.
func damaged(r *rand.Rand) string {
	for try := 0; ; try++ {
		var t string
		if r.Intn(2) == 0 {
			t = (&model.LintText{R: r, Configs: 20, Line: true, Block: true, Strings: true, Ends: r.Intn(2) == 0, Short: true, Rules: documented}).Text()
		} else {
			g := model.NewGen(r, typePool)
			t = model.Style{R: r}.Render(g.Doc(1+r.Intn(4), 30), []string{"x"})[0].Text
		}
		b := []byte(t)
		for k := 1 + r.Intn(4); k > 0 && len(b) > 4; k-- {
			i, j := r.Intn(len(b)), r.Intn(len(b))
			if i > j {
				i, j = j, i
			}
			if j-i > 30 {
				j = i + 30
			}
			switch r.Intn(5) {
			case 0: // cut
				b = append(append([]byte{}, b[:i]...), b[j:]...)
			case 1: // duplicate
				b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
			case 2: // an odd byte
				b[i] = []byte{0xff, 0xc3, 0x80, '#', '"', '\\', '\r', '\n', ',', '\t', 0x7f, '|', '&', '@', '!', 0xef}[r.Intn(16)]
			case 3: // a fragment
				f := []string{"#lint-", "#lint-disable", "\"\"\"", "\"", "@d", "@deprecated", "= 1", "!", "[", "]", "extend ", "\ufeff", "type", " implements ", "&", "|", "#lint-enable ,\n", "\r", "(", ")", "\xff"}[r.Intn(21)]
				b = append(append(append([]byte{}, b[:i]...), f...), b[i:]...)
			case 4: // a copy elsewhere
				b = append(append(append([]byte{}, b[:i]...), b[j:]...), b[i:j]...)
			}
		}
		if parses(string(b)) || try > 200 {
			if parses(string(b)) {
				return string(b)
			}
			return t
		}
	}
}

type crashEvent struct {
	ID    string    `json:"id"`
	What  string    `json:"what"`
	Crash string    `json:"crash"`
	Runs  []outcome `json:"runs"`
}

// crashLib lints a text with every rule alone and with all, and compares it with other texts, in the process.
func crashLib(id string, text string, others []string) (interface{}, interface{}) {
	ev := crashEvent{ID: id, What: "library", Runs: []outcome{}}
	in := anyInput{ID: id, Files: []model.File{{Name: "a.graphql", Text: text}}}
	for _, o := range others {
		in.Files = append(in.Files, model.File{Name: "b.graphql", Text: o})
	}
	doc := func(t string) *ast.SchemaDocument {
		d, err := parser.ParseSchema(&ast.Source{Name: "a.graphql", Input: t})
		if err != nil {
			panic("not parsable: " + err.Error())
		}
		return d
	}
	ev.Crash = dio.Guard(20e9, func() {
		var all []linter.LintRuleFunc
		for _, x := range linter.AllTheRules {
			all = append(all, x.RuleFunction)
			cmdlinter.Lint("a.graphql", text, []linter.LintRuleFunc{x.RuleFunction})
		}
		cmdlinter.Lint("a.graphql", text, all)
		cmdlinter.Lint("a.graphql", text, nil)
		for _, o := range append([]string{text}, others...) {
			compare.GroupChanges(compare.FindChangesInSchemas(doc(text), doc(o)))
			compare.GroupChanges(compare.FindChangesInSchemas(doc(o), doc(text)))
		}
	})
	return ev, in
}

// crashCli does the same on the command line.
func crashCli(id, a, b string, r *rand.Rand) (interface{}, interface{}) {
	ev := crashEvent{ID: id, What: "command", Runs: []outcome{}}
	in := anyInput{ID: id, Files: []model.File{{Name: "a.graphql", Text: a}, {Name: "b.graphql", Text: b}}}
	dir := dirFor(map[string]string{"a.graphql": a, "b.graphql": b})
	defer os.RemoveAll(dir)
	for _, args := range [][]string{{"lint", "-f", "?.graphql"}, {"lint"}, {"compare", "-o", "a.graphql", "-n", "b.graphql"}, {"compare", "-o", "b.graphql", "-n", "a.graphql", "-e"}} {
		res := gql(dir, a, nil, args...)
		ev.Runs = append(ev.Runs, outcome{res.Status, tail(res.Out), tail(res.Err), res.Crash})
		in.Outs = append(in.Outs, tail(res.Out))
	}
	return ev, in
}

func tail(s string) string {
	l := lines(s)
	if len(l) == 0 {
		return ""
	}
	return l[len(l)-1]
}
