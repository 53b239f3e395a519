// drv-compare runs the library's schema comparison on cases from the model and on random ones and records what it reports.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/utils"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	dio "gqlverif/io"
	"gqlverif/model"
)

type change struct {
	Ct   string    `json:"ct"`
	Crit string    `json:"crit"`
	Path string    `json:"path"`
	Msg  string    `json:"msg"`
	Toks []string  `json:"toks"`
	Pos  model.Pos `json:"pos"`
}

type event struct {
	ID    string     `json:"id"`
	Kind  string     `json:"kind"`
	Old   *model.Doc `json:"old"`
	New   *model.Doc `json:"new"`
	Fwd   []change   `json:"fwd"`
	Bwd   []change   `json:"bwd"`
	Crash string     `json:"crash"`
}

type input struct {
	ID    string       `json:"id"`
	Old   []model.File `json:"old"`
	New   []model.File `json:"new"`
	Edits []string     `json:"edits"`
	Fwd   []string     `json:"report"`
	Bwd   []string     `json:"reverse"`
	Crash string       `json:"crash"`
}

// mcase is a case emitted by the model checker.
type mcase struct {
	ID    string     `json:"id"`
	Kind  string     `json:"kind"`
	Old   *model.Doc `json:"old"`
	New   *model.Doc `json:"new"`
	Edits []string   `json:"edits"`
}

func parse(fs []model.File) (*ast.SchemaDocument, error) {
	var src []*ast.Source
	for _, f := range fs {
		src = append(src, &ast.Source{Name: f.Name, Input: f.Text})
	}
	return parser.ParseSchemas(src...)
}

// subject parses in the way the tool does when there are several files.
func subject(fs []model.File) (*ast.SchemaDocument, error) {
	if len(fs) == 1 {
		return parse(fs)
	}
	m := map[string][]byte{}
	for _, f := range fs {
		m[f.Name] = []byte(f.Text)
	}
	return utils.ParseSchema(m)
}

func toks(msg string) []string {
	p := strings.Split(msg, "'")
	r := []string{}
	for i := 1; i+1 < len(p); i += 2 {
		r = append(r, p[i])
	}
	return r
}

func norm(s string) string { return strings.Join(strings.Fields(s), " ") }

// message is the text of a change. Blanks count only where they may be those of a value.
func message(c *compare.Change) string {
	if ct := string(c.GetChangeType()); strings.Contains(ct, "DEFAULT") || strings.Contains(ct, "ARGUMENT_VALUE") {
		return strings.TrimSpace(c.GetMessage())
	}
	return norm(c.GetMessage())
}

func report(old, new *ast.SchemaDocument) []change {
	r := []change{}
	for _, c := range compare.FindChangesInSchemas(old, new) {
		x := change{Ct: string(c.GetChangeType()), Crit: c.GetChangeCriticalityLevel().String(), Path: c.GetPath(), Msg: message(c),
			Toks: toks(c.GetMessage()), Pos: model.Pos{F: "<none>"}}
		if p := c.GetPosition(); p != nil && p.Src != nil {
			x.Pos = model.Pos{F: p.Src.Name, L: p.Line, C: p.Column}
		}
		r = append(r, x)
	}
	return r
}

func show(l []change) []string {
	r := []string{}
	for _, c := range l {
		r = append(r, fmt.Sprintf("%s %s %q %s:%d %s", c.Crit, c.Ct, c.Path, c.Pos.F, c.Pos.L, c.Msg))
	}
	return r
}

var (
	sink *dio.Sink
	pj   model.Projector
)

func emit(id, kind string, old, new []model.File, edits []string) {
	ev := event{ID: id, Kind: kind, Fwd: []change{}, Bwd: []change{}}
	od, err := parse(old)
	if err != nil {
		dio.Must(fmt.Errorf("case %s: old: %v\n%v", id, err, old))
	}
	nd, err := parse(new)
	if err != nil {
		dio.Must(fmt.Errorf("case %s: new: %v\n%v", id, err, new))
	}
	ev.Old, ev.New = pj.Project(od), pj.Project(nd)
	sink.Try(input{ID: id, Old: old, New: new, Edits: edits})
	ev.Crash = dio.Guard(20*time.Second, func() {
		o, err1 := subject(old)
		n, err2 := subject(new)
		if err1 != nil || err2 != nil {
			panic(fmt.Sprint("not parsed: ", err1, err2))
		}
		ev.Fwd = report(o, n)
		o, _ = subject(old)
		n, _ = subject(new)
		ev.Bwd = report(n, o)
	})
	if ev.Crash == "hang" { // leave the runaway goroutine alone
		ev.Fwd, ev.Bwd = []change{}, []change{}
	}
	sink.Put(ev, input{ID: id, Old: old, New: new, Edits: edits, Fwd: show(ev.Fwd), Bwd: show(ev.Bwd), Crash: ev.Crash})
	if ev.Crash == "hang" {
		sink.Close()
		os.Exit(0)
	}
}

func same(a, b *model.Doc) bool {
	x, _ := json.Marshal(strip(a))
	y, _ := json.Marshal(strip(b))
	return string(x) == string(y)
}

func strip(d *model.Doc) *model.Doc {
	c := model.Clone(d)
	model.ZeroPos(reflect.ValueOf(c))
	return c
}

func main() {
	out := flag.String("out", "", "output prefix")
	shards := flag.Int("shards", 8, "")
	cases := flag.String("cases", "", "ndjson file with cases of the model")
	random := flag.String("random", "", "random cases: PROFILE:N,...")
	history := flag.String("histories", "", "ndjson file with families of versions")
	chains := flag.Int("chains", 0, "number of random histories")
	seed := flag.Int64("seed", 1, "")
	replay := flag.String("replay", "", "a recorded input (one JSON object) to run again")
	flag.Parse()
	sink = dio.NewSink(*out, *shards)

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		dio.Must(err)
		var in input
		dio.Must(json.Unmarshal(b, &in))
		emit(in.ID, "replay", in.Old, in.New, in.Edits)
	}
	if *cases != "" {
		k := 0
		dio.Lines(*cases, func(b []byte) {
			k++
			if !dio.Mine() {
				return
			}
			var c mcase
			dio.Must(json.Unmarshal(b, &c))
			plain := model.Style{}
			of := plain.Render(c.Old, []string{"old.graphql"})
			nf := plain.Render(c.New, []string{"new.graphql"})
			for i, fs := range [][]model.File{of, nf} {
				d, err := parse(fs)
				if err != nil {
					dio.Must(fmt.Errorf("case %s does not parse: %v\n%s", c.ID, err, fs[0].Text))
				}
				if !same(pj.Project(d), []*model.Doc{c.Old, c.New}[i]) {
					dio.Must(fmt.Errorf("case %s is not rendered faithfully:\n%s", c.ID, fs[0].Text))
				}
			}
			emit(fmt.Sprintf("%s #%d", c.ID, k), c.Kind, of, nf, c.Edits)
		})
	}
	if *history != "" {
		histories(*history)
	}
	for i := 0; i < *chains; i++ {
		if dio.Mine() {
			chain(i, rand.New(rand.NewSource(*seed*1000003+int64(i))))
		}
	}
	for _, p := range strings.FieldsFunc(*random, func(r rune) bool { return r == ',' }) {
		var n int
		k := strings.IndexByte(p, ':')
		_, err := fmt.Sscan(p[k+1:], &n)
		dio.Must(err)
		for i := 0; i < n; i++ {
			if !dio.Mine() {
				continue
			}
			randomCase(i, rand.New(rand.NewSource(*seed*1000003+int64(i))), p[:k])
		}
	}
	sink.Close()
	fmt.Println("events", sink.N)
}

var typePool = []string{"A", "B", "C", "D", "Query", "Mutation", "Node", "Thing"}

func randomCase(i int, r *rand.Rand, profile string) {
	k := 2 + r.Intn(len(typePool)-1)
	g := model.NewGen(r, typePool)
	ext := []int{0, 20, 50}[r.Intn(3)]
	classes, nEdits := model.AnyEdit, 1+r.Intn(8)
	kind := "pair"
	switch profile {
	case "additive":
		classes = model.Additive
		nEdits = 1 + r.Intn(12)
	case "safe":
		classes = model.Additive | model.Dangerous | model.Neutral
		nEdits = 1 + r.Intn(12)
	case "dangerous":
		classes = model.Dangerous | model.Neutral
		nEdits = 1 + r.Intn(8)
	case "breaking":
		classes = model.Breaking | model.Neutral
		nEdits = 1 + r.Intn(8)
	case "ext":
		ext = []int{40, 60, 70}[r.Intn(3)]
	case "same":
		ext = []int{0, 40, 60}[r.Intn(3)]
		kind = "same"
	case "large":
		g.Types = append(g.Types, "T1", "T2", "T3", "T4", "T5", "T6", "T7", "T8", "T9", "U1", "U2", "U3")
		k = 12 + r.Intn(9)
		nEdits = 1 + r.Intn(30)
	}
	old := g.Doc(k, ext)
	var new *model.Doc
	var edits []string
	switch {
	case profile == "same":
		new = model.Clone(old)
		for j := r.Intn(3); j >= 0; j-- {
			new = g.Rearrange(new)
		}
	case profile == "mixed" && r.Intn(4) == 0 || profile == "ext" && r.Intn(4) == 0:
		new = g.Doc(2+r.Intn(len(typePool)-1), ext)
		edits = []string{"independent"}
	default:
		new, edits = g.Mutate(old, nEdits, classes)
	}
	so, sn := model.Style{}, model.Style{}
	if r.Intn(4) > 0 || profile == "same" {
		so.R = r
		sn.R = r
	}
	names := func(p string) []string {
		all := []string{p + "1.graphql", p + "2.graphql", p + "3.graphql"}
		if profile == "large" || profile == "mixed" || profile == "ext" || profile == "same" {
			return all[:1+r.Intn(3)]
		}
		return all[:1]
	}
	emit(fmt.Sprintf("%s-%d", profile, i), kind, so.Render(old, names("o")), sn.Render(new, names("n")), edits)
}
