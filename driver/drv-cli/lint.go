package main

import (
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	dio "gqlverif/io"
	"gqlverif/model"
)

type lintFile struct {
	Name string     `json:"name"`
	Text []int      `json:"text"`
	Doc  *model.Doc `json:"doc"`
}

type given struct {
	CP    []int  `json:"cp"`
	Given string `json:"given"`
}

type lintEvent struct {
	ID     string     `json:"id"`
	Stdin  bool       `json:"stdin"`
	Files  []lintFile `json:"files"`
	Sel    [][]int    `json:"sel"`
	Names  []given    `json:"names"`
	Status int        `json:"status"`
	Lines  []string   `json:"lines"`
	Out    string     `json:"out"`
	Crash  string     `json:"crash"`
	Plan   int        `json:"plan"` // the number of errors the case was made to have, or -1
}

type lintInput struct {
	ID     string       `json:"id"`
	Args   []string     `json:"args"`
	Stdin  string       `json:"stdin"`
	Files  []model.File `json:"files"`
	Status int          `json:"status"`
	Out    string       `json:"out"`
}

func cps(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

func parses(text string) bool {
	_, err := parser.ParseSchema(&ast.Source{Name: "x", Input: text})
	return err == nil
}

func project(name, text string) *model.Doc {
	d, err := parser.ParseSchema(&ast.Source{Name: name, Input: text})
	dio.Must(err)
	return model.Projector{}.Project(d)
}

// the documented rules, whatever the tool thinks it has
var documented = []string{"type-desc", "args-desc", "field-desc", "enum-caps", "enum-desc", "field-camel", "type-caps", "relay-conn-type", "relay-conn-args"}

func oddCase(r *rand.Rand, s string) string {
	switch r.Intn(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.Title(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if r.Intn(3) == 0 && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

// selection makes values for the rules option.
func selection(r *rand.Rand, bad bool) []string {
	k := 1 + r.Intn(4)
	if r.Intn(6) == 0 {
		k = len(documented)
	} else if r.Intn(12) == 0 { // one name again and again, and then others
		k = 10 + r.Intn(60)
	}
	again := documented[r.Intn(len(documented))]
	var names []string
	for i := 0; i < k; i++ {
		n := oddCase(r, documented[r.Intn(len(documented))])
		if k > 9 && i < k-1-k%3 {
			n = oddCase(r, again)
		}
		if r.Intn(3) == 0 {
			sp := []string{" ", "\t", "  ", "\u00a0"}
			n = sp[r.Intn(4)] + n
			if r.Intn(2) == 0 {
				n += sp[r.Intn(4)]
			}
		}
		names = append(names, n)
	}
	if bad {
		x := []string{"typedesc", "type-des", "type-descx", "", "all", "types-have-description", "field_desc", "type-desc;args-desc", "relay", "-desc", "type–desc", "type desc"}[r.Intn(12)]
		i := r.Intn(len(names) + 1)
		names = append(names[:i], append([]string{x}, names[i:]...)...)
	}
	vals := []string{}
	for len(names) > 0 {
		j := 1 + r.Intn(len(names))
		v := strings.Join(names[:j], ",")
		if v != "" || j > 1 {
			vals = append(vals, v)
		} else if bad {
			vals = append(vals, ",")
		}
		names = names[j:]
	}
	return vals
}

func option(r *rand.Rand, short, long, v string) []string {
	switch r.Intn(4) {
	case 0:
		if v != "" {
			return []string{"-" + short + v}
		}
	case 1:
		return []string{"--" + long, v}
	case 2:
		return []string{"--" + long + "=" + v}
	}
	return []string{"-" + short, v}
}

var patterns = []string{"*.graphql", "./*.graphql", "[ab]*.graphql", "?.graphql", "sub/*.graphql", "*/x.graphql", "*", "*.gr*ql"}
var fileNames = []string{"a.graphql", "b.graphql", "ab.graphql", "c.graphql", "z.graphql", "B.graphql", "a b.graphql", "\u00fc.graphql", "10.graphql", "9.graphql", "sub/a.graphql", "sub/x.graphql", "other/x.graphql", "notes.txt", ".h.graphql", "sub2/x.graphqls"}

// names that mean something to a formatter, a shell or a pattern, but not to the tool
var oddNames = []string{"50%.graphql", "%d%s%v.graphql", "a%20b.graphql", "%!.graphql", "it's.graphql", "say \"hi\".graphql", "a:12:3.graphql", "\u65e5\u672c.graphql", "#x.graphql", "-x.graphql", "a,b.graphql",
	"a[1].graphql", "{a}.graphql", "$HOME.graphql", "~.graphql", "A.graphql", "a..graphql", "a.graphql.graphql", "\u00e9\U0001F600.graphql", "<nil>.graphql", "a\\b.graphql", "a*.graphql", "stdin.graphql", "a|b&c;d.graphql",
	"a=b.graphql", "line:.graphql", "tab\t.graphql", "\u274c.graphql", "Type.graphql", "  .graphql", " a.graphql", "a .graphql"}

// plain tells whether a name means just itself as a pattern.
func plain(name string) bool { return !strings.ContainsAny(name, "*?[\\") }

func matches(pattern string, name string) bool {
	ok, err := path.Match(strings.TrimPrefix(pattern, "./"), name)
	dio.Must(err)
	return ok
}

func lintText(r *rand.Rand) string {
	for {
		switch r.Intn(14) {
		case 0:
			return []string{"", "\n", "# only a comment", "#lint-disable type-desc", "\ufeff"}[r.Intn(5)]
		case 1:
			return "\"d\" type Clean {\n  \"d\" id: ID\n}\n"
		}
		g := &model.LintText{R: r, Configs: []int{0, 0, 15, 40}[r.Intn(4)], Line: true, Block: true, Strings: r.Intn(3) == 0, Ends: r.Intn(3) == 0, Short: r.Intn(4) > 0, Dense: r.Intn(5) == 0, Rules: documented}
		t := g.Text()
		if r.Intn(6) == 0 {
			t = []string{"\n", "\n\n\n", " ", "\t\n", "\r\n", "\r", "  \n \n", ",\n", "#\n"}[r.Intn(9)] + t
		}
		if r.Intn(12) == 0 {
			t += []string{"\n\n", " ", "\t", "\r", "\n#", ","}[r.Intn(6)]
		}
		if parses(t) {
			if r.Intn(8) == 0 {
				f := []model.File{{Text: t}}
				lengthen(r, f)
				t = f[0].Text
			}
			return t
		}
	}
}

func lintCase(id string, r *rand.Rand, many bool) (interface{}, interface{}) {
	ev := lintEvent{ID: id, Plan: -1, Files: []lintFile{}, Sel: [][]int{}, Names: []given{}}
	in := lintInput{ID: id, Files: []model.File{}}
	args := []string{"lint"}
	opts := [][]string{}
	texts := map[string]string{}
	if r.Intn(6) == 0 {
		ev.Stdin = true
		in.Stdin = lintText(r)
		ev.Files = append(ev.Files, lintFile{"/dev/stdin", cps(in.Stdin), project("/dev/stdin", in.Stdin)})
	} else {
		pat := patterns[r.Intn(len(patterns))]
		k := 1
		if many {
			k = 2 + r.Intn(4)
		} else if r.Intn(3) == 0 {
			k = 2
		}
		var hit, miss []string
		pool := fileNames
		if r.Intn(3) == 0 {
			pool = append(append([]string{}, pool...), oddNames...)
		}
		for _, n := range pool {
			if matches(pat, n) {
				hit = append(hit, n)
			} else {
				miss = append(miss, n)
			}
		}
		if pat == "*" { // directories would match as well
			miss = nil
		}
		r.Shuffle(len(hit), func(i, j int) { hit[i], hit[j] = hit[j], hit[i] })
		if k > len(hit) {
			k = len(hit)
		}
		hit = hit[:k]
		if k == 1 && r.Intn(2) == 0 && plain(hit[0]) {
			pat = []string{"", "./"}[r.Intn(2)] + hit[0]
			if strings.HasPrefix(pat, "./") {
				hit[0] = pat
			}
		}
		sort.Strings(hit)
		for _, n := range hit {
			t := lintText(r)
			if len(in.Files) > 0 && r.Intn(5) == 0 { // the same content once more
				t = in.Files[r.Intn(len(in.Files))].Text
			}
			texts[n] = t
			ev.Files = append(ev.Files, lintFile{n, cps(t), project(n, t)})
			in.Files = append(in.Files, model.File{Name: n, Text: t})
		}
		for i := r.Intn(3); i > 0 && len(miss) > 0; i-- {
			n := miss[r.Intn(len(miss))]
			taken := false
			for _, h := range hit {
				taken = taken || path.Clean(h) == n
			}
			if !taken {
				texts[n] = []string{"type broken {", "type unseen { a_b: Int }"}[r.Intn(2)]
			}
		}
		opts = append(opts, option(r, "f", "filepath", pat))
	}
	vals := []string{}
	if r.Intn(3) > 0 {
		vals = selection(r, r.Intn(6) == 0 && !many)
	} else if r.Intn(10) == 0 {
		vals = []string{""}
	}
	for _, v := range vals {
		opts = append(opts, option(r, "r", "rules", v))
		ev.Sel = append(ev.Sel, cps(v))
		for _, n := range strings.Split(v, ",") {
			n = strings.TrimSpace(n)
			ev.Names = append(ev.Names, given{cps(n), n})
		}
	}
	// the order of the values of the rules option stays, the path may come anywhere
	if len(opts) > 1 && r.Intn(2) == 0 && !ev.Stdin {
		opts = append(opts[1:], opts[0])
	}
	for _, o := range opts {
		args = append(args, o...)
	}
	dir := dirFor(texts)
	defer os.RemoveAll(dir)
	if r.Intn(5) == 0 && len(ev.Files) > 0 && !ev.Stdin { // through a symbolic link
		n := ev.Files[0].Name
		dio.Must(os.MkdirAll(dir+"-real", 0o755))
		defer os.RemoveAll(dir + "-real")
		dio.Must(os.Rename(filepath.Join(dir, n), dir+"-real/target"))
		dio.Must(os.Symlink(dir+"-real/target", filepath.Join(dir, n)))
	}
	for i := range in.Files { // two names for one file
		for j := 0; j < i; j++ {
			if in.Files[i].Text == in.Files[j].Text && r.Intn(2) == 0 {
				n := filepath.Join(dir, in.Files[i].Name)
				dio.Must(os.Remove(n))
				dio.Must([]func(string, string) error{os.Symlink, os.Link}[r.Intn(2)](filepath.Join(dir, in.Files[j].Name), n))
				break
			}
		}
	}
	res := gql(dir, in.Stdin, nil, args...)
	ev.Status, ev.Out, ev.Lines, ev.Crash = res.Status, res.Out, lines(res.Out), res.Crash
	in.Args, in.Status, in.Out = args, res.Status, res.Out
	return ev, in
}

// a text that breaks every rule, more than once
const allBroken = `type user { Bad_name(arg: Int, "described" other: Int): Int  "described" fine: userConnection }
enum color { red "described" Green BLUE }
extend enum color { dark }
"described" type userConnection { "described" edges: Int }
extend type user { second(first: String): [userConnection!]! }
input inputThing { _a: Int }
scalar FooConnection
`

func selectionCase(id string, sel [][]int) (interface{}, interface{}) {
	ev := lintEvent{ID: id, Plan: -1, Files: []lintFile{{"a.graphql", cps(allBroken), project("a.graphql", allBroken)}}, Sel: sel, Names: []given{}}
	in := lintInput{ID: id, Files: []model.File{{Name: "a.graphql", Text: allBroken}}}
	args := []string{"lint", "-f", "a.graphql"}
	for _, v := range sel {
		t := ""
		for _, c := range v {
			t += string(rune(c))
		}
		args = append(args, "-r", t)
		for _, n := range strings.Split(t, ",") {
			n = strings.TrimSpace(n)
			ev.Names = append(ev.Names, given{cps(n), n})
		}
	}
	dir := dirFor(map[string]string{"a.graphql": allBroken})
	defer os.RemoveAll(dir)
	res := gql(dir, "", nil, args...)
	ev.Status, ev.Out, ev.Lines, ev.Crash = res.Status, res.Out, lines(res.Out), res.Crash
	in.Args, in.Status, in.Out = args, res.Status, res.Out
	return ev, in
}

// files with so and so many errors, a case of the model
type filesCase struct {
	ID    string   `json:"id"`
	Files []string `json:"files"`
	Sel   []string `json:"sel"`
	Left  int      `json:"left"`
}

var contents = map[string]string{
	"clean": "\"d\" type Clean {\n  \"d\" id: ID\n}\n", "empty": "", "comment": "# nothing\n", "desc": "type A\n", "two": "type a\n", "caps": "\"d\" type a\n",
	"hidden": "#lint-disable type-desc\ntype A\ntype B\n", "half": "type a #lint-disable-line type-desc\n", "other": "#lint-disable type-caps\ntype A\n",
	"many": strings.Repeat("extend type A { a: Int }\n", 3) + "type A type B type C\ntype D\ntype E\ntype F\nenum G\n\n\ninput H\ninterface I\nunion J\ntype K type L\n",
}

func filesOf(id string, r *rand.Rand, c filesCase) (interface{}, interface{}) {
	ev := lintEvent{ID: id, Plan: c.Left, Files: []lintFile{}, Sel: [][]int{}, Names: []given{}}
	in := lintInput{ID: id, Files: []model.File{}}
	texts := map[string]string{}
	names := []string{"a.graphql", "b.graphql", "10.graphql", "9.graphql", "Z.graphql"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	args := []string{"lint"}
	switch way := r.Intn(3); {
	case len(c.Files) == 1 && way == 0:
		ev.Stdin, in.Stdin, names[0] = true, contents[c.Files[0]], "/dev/stdin"
	case len(c.Files) == 1 && way == 1:
		args = append(args, "-f", names[0])
	default:
		args = append(args, "-f", "*.graphql")
	}
	for i, f := range c.Files {
		t := contents[f]
		if !ev.Stdin {
			texts[names[i]] = t
		}
		ev.Files = append(ev.Files, lintFile{names[i], cps(t), project(names[i], t)})
		in.Files = append(in.Files, model.File{Name: names[i], Text: t})
	}
	sort.Slice(ev.Files, func(i, j int) bool { return ev.Files[i].Name < ev.Files[j].Name })
	sel := strings.Join(c.Sel, ",")
	args, ev.Sel = append(args, "-r", sel), append(ev.Sel, cps(sel))
	for _, n := range c.Sel {
		ev.Names = append(ev.Names, given{cps(n), n})
	}
	dir := dirFor(texts)
	defer os.RemoveAll(dir)
	res := gql(dir, in.Stdin, nil, args...)
	ev.Status, ev.Out, ev.Lines, ev.Crash = res.Status, res.Out, lines(res.Out), res.Crash
	in.Args, in.Status, in.Out = args, res.Status, res.Out
	return ev, in
}
