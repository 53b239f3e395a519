package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/utils"
	"github.com/vektah/gqlparser/v2/ast"

	dio "gqlverif/io"
	"gqlverif/model"
)

type libChange struct {
	Crit string `json:"crit"`
	Rank int    `json:"rank"`
	Line int    `json:"line"`
	Pos  string `json:"pos"`
	Text string `json:"text"`
}

type entry struct {
	G    string `json:"g"`
	Text string `json:"text"`
}

type cmpRun struct {
	B       bool     `json:"b"`
	E       bool     `json:"e"`
	Status  int      `json:"status"`
	Entries []entry  `json:"entries"`
	Tail    []string `json:"tail"`
	Crash   string   `json:"crash"`
}

// one call of a Report function of the library
type repRun struct {
	G       string  `json:"g"`
	Paths   bool    `json:"paths"`
	Ret     int     `json:"ret"`
	Entries []entry `json:"entries"`
}

type cmpEvent struct {
	ID    string      `json:"id"`
	Old   *model.Doc  `json:"old"`
	New   *model.Doc  `json:"new"`
	Lib   []libChange `json:"lib"`
	Runs  []cmpRun    `json:"runs"`
	Rep   []repRun    `json:"rep"`
	Group [][]string  `json:"group"`
	Crash string      `json:"crash"`
}

type cmpInput struct {
	ID   string       `json:"id"`
	Old  []model.File `json:"old"`
	New  []model.File `json:"new"`
	Args [][]string   `json:"args"`
	Outs []string     `json:"outs"`
}

func norm(s string) string { return strings.Join(strings.Fields(s), " ") }

var verdicts = []string{"No changes found on schema compare!", "No breaking changes found", "Breaking changes in schema: "}

func isVerdict(l string) bool {
	for _, v := range verdicts {
		if strings.Contains(l, v) {
			return true
		}
	}
	return false
}

// split divides what compare printed into entries and other lines.
func split(out string) ([]entry, []string) {
	es, tail := []entry{}, []string{}
	for _, l := range lines(out) {
		g := ""
		for icon, k := range map[string]string{"\u274c": "Breaking", "\u270b": "Dangerous", "\u2705": "NonBreaking"} {
			if strings.HasPrefix(l, icon) {
				g = k
				l = strings.TrimPrefix(strings.TrimPrefix(l, icon), "\ufe0f")
				break
			}
		}
		switch {
		case isVerdict(l) && (g == "" || g == "Breaking" && strings.HasPrefix(norm(l), "Breaking changes in schema")):
			tail = append(tail, norm(l))
		case g != "":
			es = append(es, entry{g, norm(l)})
		case norm(l) == "":
		case len(es) > 0 && len(tail) == 0: // a message with a line break in it
			es[len(es)-1].Text = norm(es[len(es)-1].Text + " " + l)
		default:
			tail = append(tail, norm(l))
		}
	}
	return es, tail
}

func captured(f func()) string {
	r, w, err := os.Pipe()
	dio.Must(err)
	old := os.Stdout
	os.Stdout = w
	done := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		done <- string(b)
	}()
	f()
	os.Stdout = old
	w.Close()
	s := <-done
	r.Close()
	return s
}

func libParse(fs []model.File) *ast.SchemaDocument {
	m := map[string][]byte{}
	for _, f := range fs {
		m[f.Name] = []byte(f.Text)
	}
	d, err := utils.ParseSchema(m)
	dio.Must(err)
	return d
}

var typePool = []string{"A", "B", "C", "D", "Query", "Mutation", "Node", "Thing"}

// schemas makes a pair of documents and lays them out over files.
func schemas(r *rand.Rand, profile string, files int) (of, nf []model.File) {
	g := model.NewGen(r, typePool)
	k := 2 + r.Intn(len(typePool)-1)
	n := 1 + r.Intn(8)
	cl := model.AnyEdit
	switch profile {
	case "large":
		g.Types = append(g.Types, "T1", "T2", "T3", "T4", "T5", "T6", "T7", "T8", "T9", "U1", "U2", "U3")
		k, n = 12+r.Intn(9), 5+r.Intn(60)
	case "same":
		n = 0
	case "additive":
		cl = model.Additive
	case "safe":
		cl = model.Additive | model.Dangerous | model.Neutral
	case "breaking":
		cl, n = model.Breaking, 1+r.Intn(4)
	}
	old := g.Doc(k, []int{0, 20, 50}[r.Intn(3)])
	new, _ := g.Mutate(old, n, cl)
	if profile == "same" {
		new = g.Rearrange(new)
	} else if r.Intn(8) == 0 && profile != "safe" && profile != "additive" {
		new = g.Doc(k, 20)
	}
	so, sn := model.Style{}, model.Style{}
	if r.Intn(3) > 0 {
		so.R, sn.R = r, r
	}
	names := func(p string) []string {
		all := []string{p + "/b.graphql", p + "/a.graphql", p + "/c c.graphql", p + "/10.graphql", p + "/9.graphql"}
		if r.Intn(3) == 0 {
			for i := 0; i < 3; i++ {
				all[i] = p + "/" + oddNames[(r.Intn(len(oddNames)/3))*3+i]
			}
		}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		return all[:1+r.Intn(files)]
	}
	on, nn := names("old"), names("new")
	if len(on)+len(nn) > 2 {
		so.R, sn.R = r, r
	}
	of, nf = so.Render(old, on), sn.Render(new, nn)
	if r.Intn(6) == 0 {
		lengthen(r, of, nf)
	}
	return of, nf
}

func pathArg(r *rand.Rand, dir string, fs []model.File) string {
	if len(fs) == 1 && plain(fs[0].Name) && r.Intn(2) == 0 {
		return fs[0].Name
	}
	return []string{dir + "/*.graphql", dir + "/*", dir + "/*.gr*"}[r.Intn(3)]
}

// flags spells the two switches in one of the many ways.
func flags(r *rand.Rand, o, n string, b, e bool) []string {
	opts := [][]string{option(r, "o", "oldversion", o), option(r, "n", "newversion", n)}
	sw := func(short, long string, on bool) {
		switch {
		case on:
			opts = append(opts, []string{[]string{"-" + short, "--" + long, "--" + long + "=true", "-" + short + "=true"}[r.Intn(4)]})
		case r.Intn(4) == 0:
			opts = append(opts, []string{[]string{"--" + long + "=false", "-" + short + "=false"}[r.Intn(2)]})
		}
	}
	if b && e && r.Intn(3) == 0 {
		opts = append(opts, []string{[]string{"-be", "-eb"}[r.Intn(2)]})
	} else {
		sw("b", "breaking-change-only", b)
		sw("e", "exclude-print-filepath", e)
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	a := []string{"compare"}
	for _, x := range opts {
		a = append(a, x...)
	}
	return a
}

func fileMap(l ...[]model.File) map[string]string {
	m := map[string]string{}
	for _, fs := range l {
		for _, f := range fs {
			m[f.Name] = f.Text
		}
	}
	return m
}

func compareCase(id string, r *rand.Rand, profile string) (interface{}, interface{}) {
	of, nf := schemas(r, profile, 3)
	return compareRuns(id, r, of, nf)
}

// a list of changes, a case of the model
type listCase struct {
	ID      string `json:"id"`
	Changes []struct {
		Crit string `json:"crit"`
		File string `json:"file"`
		Line int    `json:"line"`
	} `json:"changes"`
}

// listed makes two schemas between which just the given changes are found, there.
func listed(id string, r *rand.Rand, c listCase) (interface{}, interface{}) {
	old := model.File{Name: "old/all.graphql"}
	texts := map[string][]string{"10.graphql": nil, "9.graphql": nil}
	for i, x := range c.Changes {
		was, is := "union T%d = A", "union T%d = A | B" // Dangerous
		switch x.Crit {
		case "Breaking":
			was, is = is, was
		case "NonBreaking":
			was, is = "directive @T%d on ENUM", "directive @T%d on ENUM | UNION"
		}
		old.Text += fmt.Sprintf(was, i) + "\n"
		l := texts[x.File]
		for len(l) < x.Line {
			l = append(l, "")
		}
		l[x.Line-1] += fmt.Sprintf(is, i) + " "
		texts[x.File] = l
	}
	old.Text += "scalar Z\n"
	nf := []model.File{}
	for _, n := range []string{"9.graphql", "10.graphql"} {
		nf = append(nf, model.File{Name: "new/" + n, Text: strings.Join(texts[n], "\n") + "\n"})
	}
	nf[r.Intn(2)].Text += "scalar Z\n"
	return compareRuns(id, r, []model.File{old}, nf)
}

func compareRuns(id string, r *rand.Rand, of, nf []model.File) (interface{}, interface{}) {
	in := cmpInput{ID: id, Old: of, New: nf}
	ev := cmpEvent{ID: id, Lib: []libChange{}, Runs: []cmpRun{}, Rep: []repRun{}, Group: [][]string{}}
	ev.Old, ev.New = model.Projector{}.Project(libParse(of)), model.Projector{}.Project(libParse(nf))
	dir := dirFor(fileMap(of, nf))
	defer os.RemoveAll(dir)
	for i := 0; i < 4; i++ {
		b, e := i&1 == 1, i&2 == 2
		args := flags(r, pathArg(r, "old", of), pathArg(r, "new", nf), b, e)
		res := gql(dir, "", nil, args...)
		in.Args = append(in.Args, args)
		in.Outs = append(in.Outs, res.Out)
		es, tail := split(res.Out)
		ev.Runs = append(ev.Runs, cmpRun{B: b, E: e, Status: res.Status, Entries: es, Tail: tail, Crash: res.Crash})
	}
	return &ev, &in
}

// library adds what the library does for the same schemas (not safe for concurrent use: it captures standard output).
func library(ev *cmpEvent, in *cmpInput, r *rand.Rand) {
	var names []string
	for _, f := range append(append([]model.File{}, in.Old...), in.New...) {
		names = append(names, f.Name)
	}
	sort.Strings(names)
	ev.Crash = dio.Guard(20e9, func() {
		find := func() []*compare.Change {
			cs := compare.FindChangesInSchemas(libParse(in.Old), libParse(in.New))
			r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			return cs
		}
		lib := func(c *compare.Change) libChange {
			x := libChange{Crit: c.GetChangeCriticalityLevel().String(), Text: norm(c.GetMessage())}
			if p := c.GetPosition(); p != nil && p.Src != nil {
				x.Rank, x.Line, x.Pos = sort.SearchStrings(names, p.Src.Name), p.Line, norm(fmt.Sprintf("%s:%d", p.Src.Name, p.Line))
			}
			return x
		}
		for _, c := range find() {
			ev.Lib = append(ev.Lib, lib(c))
		}
		grouped := compare.GroupChanges(find())
		keys := []int{}
		for k := range grouped {
			keys = append(keys, int(k))
		}
		sort.Ints(keys)
		for _, i := range keys {
			k := compare.Criticality(i)
			for _, x := range grouped[k] {
				ev.Group = append(ev.Group, []string{k.String(), lib(x).Crit, lib(x).Text})
			}
		}
		groups := compare.GroupChanges(find())
		for _, paths := range []bool{true, false} {
			for _, g := range []struct {
				n string
				c compare.Criticality
				f func([]*compare.Change, bool) int
			}{{"Breaking", compare.Breaking, compare.ReportBreakingChanges}, {"Dangerous", compare.Dangerous, compare.ReportDangerousChanges},
				{"NonBreaking", compare.NonBreaking, compare.ReportNonBreakingChanges}} {
				x := repRun{G: g.n, Paths: paths, Entries: []entry{}}
				out := captured(func() { x.Ret = g.f(groups[g.c], paths) })
				x.Entries, _ = split(out)
				ev.Rep = append(ev.Rep, x)
			}
		}
	})
}

type mergeEvent struct {
	ID    string     `json:"id"`
	Old   *model.Doc `json:"old"`
	New   *model.Doc `json:"new"`
	Multi cmpRun     `json:"multi"`
	One   cmpRun     `json:"one"`
}

func mergeCase(id string, r *rand.Rand) (interface{}, interface{}) {
	of, nf := schemas(r, []string{"mixed", "mixed", "large", "same", "safe"}[r.Intn(5)], 5)
	one := func(n string, fs []model.File) model.File {
		t := ""
		for _, i := range r.Perm(len(fs)) {
			t += strings.TrimPrefix(fs[i].Text, "\ufeff") + "\n"
		}
		return model.File{Name: n, Text: t}
	}
	oo, nn := one("one/old.graphql", of), one("one/new.graphql", nf)
	m := fileMap(of, nf, []model.File{oo, nn})
	if r.Intn(3) == 0 { // files that add nothing
		t := []string{"", "\n", "# nothing", "\ufeff", ","}[r.Intn(5)]
		m["old/empty1.graphql"], m["old/empty2.graphql"], m["new/empty1.graphql"], m["new/zz.graphql"] = t, t, t, t
	}
	m["old/notes.txt"], m["new/sub/other.graphql"] = "type unrelated {", "type Unrelated { a: Int }"
	dir := dirFor(m)
	defer os.RemoveAll(dir)
	in := cmpInput{ID: id, Old: of, New: nf}
	ev := mergeEvent{ID: id, Old: model.Projector{}.Project(libParse(of)), New: model.Projector{}.Project(libParse(nf))}
	for i, x := range []*cmpRun{&ev.Multi, &ev.One} {
		o, n := "old/*.graphql", "new/*.graphql"
		if i == 1 {
			o, n = oo.Name, nn.Name
		}
		args := flags(r, o, n, false, true)
		res := gql(dir, "", nil, args...)
		in.Args, in.Outs = append(in.Args, args), append(in.Outs, res.Out)
		es, tail := split(res.Out)
		*x = cmpRun{E: true, Status: res.Status, Entries: es, Tail: tail, Crash: res.Crash}
	}
	return ev, in
}
