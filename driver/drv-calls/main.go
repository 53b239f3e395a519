// drv-calls uses the library the way a program would: several callers comparing and linting documents they share. It
// records who called what, the answers, and what the documents look like afterwards.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	cmdlinter "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/compare"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	dio "gqlverif/io"
	"gqlverif/model"
)

// step is an event of the trace. Docs is empty where nobody looked at the documents.
type step struct {
	E      string   `json:"e"`
	ID     string   `json:"id"`
	W      string   `json:"w"`
	C      string   `json:"c"`
	Answer string   `json:"a"`
	Docs   []string `json:"docs"`
}

type input struct {
	ID      string            `json:"id"`
	Texts   []string          `json:"texts"`
	Callers [][]string        `json:"callers"`
	Answers map[string]string `json:"answers"` // by what the trace has of them
	Crash   string            `json:"crash"`
}

var (
	sink     *dio.Sink
	typePool = []string{"A", "B", "C", "D", "Query", "Mutation", "Node", "Thing"}
	names    = []string{"one.graphql", "two.graphql"}
)

// dump writes everything reachable from a document.
func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if src, ok := v.Interface().(*ast.Source); ok && src != nil { // every position has it
			b.WriteString(src.Name)
			return
		}
		if v.IsNil() {
			b.WriteString("-")
			return
		}
		dump(b, v.Elem(), depth+1)
	case reflect.Slice:
		fmt.Fprintf(b, "[%d ", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			dump(b, v.Field(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("}")
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Int:
		fmt.Fprint(b, v.Int())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

func digest(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:16] }

func anySource(d *ast.SchemaDocument) *ast.Source {
	for _, x := range append(append(ast.DefinitionList{}, d.Definitions...), d.Extensions...) {
		if x.Position != nil {
			return x.Position.Src
		}
	}
	return nil
}

type session struct {
	id    string
	texts []string
	docs  []*ast.SchemaDocument

	began time.Time
	main  *caller
	all   []*caller
}

// caller has a record of its own: callers must not wait for one another, or they would hardly be at work together.
type caller struct {
	s       *session
	name    string
	steps   []step
	at      []time.Duration
	answers map[string]string
}

func (s *session) caller(name string) *caller {
	c := &caller{s: s, name: name, answers: map[string]string{}}
	s.all = append(s.all, c)
	return c
}

func (s *session) parse() {
	s.docs = nil
	for i, t := range s.texts {
		d, err := parser.ParseSchema(&ast.Source{Name: names[i], Input: t})
		if err != nil {
			dio.Must(fmt.Errorf("session %s: %v\n%s", s.id, err, t))
		}
		s.docs = append(s.docs, d)
	}
}

func (s *session) look() []string {
	r := []string{}
	for i, d := range s.docs {
		if p := anySource(d); p != nil && (p.Name != names[i] || p.Input != s.texts[i]) {
			r = append(r, "another source")
		}
	}
	for _, d := range s.docs {
		var b strings.Builder
		dump(&b, reflect.ValueOf(d), 0)
		r = append(r, digest(b.String()))
	}
	return r
}

func (w *caller) log(e step) {
	e.ID, e.W = w.s.id, w.name
	if e.Docs == nil {
		e.Docs = []string{}
	}
	w.at = append(w.at, time.Since(w.s.began))
	w.steps = append(w.steps, e)
}

func errs(l []linter.LintErrorWithMetadata, ordered bool) string {
	r := []string{}
	for _, e := range l {
		r = append(r, fmt.Sprintf("%d:%d %s %v", e.Line, e.Column, e.Rule, e.Err))
	}
	if !ordered {
		sort.Strings(r)
	}
	return strings.Join(r, "\n")
}

func changes(l []*compare.Change) []string {
	r := []string{}
	for _, c := range l {
		at := ""
		if p := c.GetPosition(); p != nil && p.Src != nil {
			at = fmt.Sprintf("%s:%d", p.Src.Name, p.Line)
		}
		r = append(r, fmt.Sprintf("%v %v %q %q %s", c.GetChangeType(), c.GetChangeCriticalityLevel(), c.GetPath(), c.GetMessage(), at))
	}
	sort.Strings(r)
	return r
}

// answer makes a call. What it returns can be read again later.
func (s *session) answer(c string) func() string {
	f := strings.Split(c, " ")
	doc := func(n string) int { return int(n[0]-'1') % len(s.docs) }
	var all []linter.LintRuleFunc
	for _, r := range linter.AllTheRules {
		all = append(all, r.RuleFunction)
	}
	switch f[0] {
	case "rule":
		k, _ := strconv.Atoi(f[1])
		l := linter.AllTheRules[(k-1)%len(linter.AllTheRules)].RuleFunction(s.docs[doc(f[2])])
		return func() string { return errs(l, false) }
	case "lint":
		l := cmdlinter.Lint(names[doc(f[2])], s.texts[doc(f[2])], all)
		return func() string { return errs(l, true) }
	case "select":
		sel := map[string][]string{"one": {string(linter.AllTheRules[0].Name)}, "some": {string(linter.AllTheRules[7].Name), string(linter.AllTheRules[2].Name)}, "none": nil}[f[1]]
		rs, err := cmdlinter.FindTheRulesToApply(sel)
		d := s.docs[doc(f[2])]
		return func() string {
			if err != nil {
				return "error " + err.Error()
			}
			out := []string{}
			for _, r := range rs {
				out = append(out, errs(r(d), false))
			}
			sort.Strings(out)
			return strings.Join(out, "\n--\n")
		}
	case "compare":
		l := compare.FindChangesInSchemas(s.docs[doc(f[1])], s.docs[doc(f[2])])
		return func() string { return strings.Join(changes(l), "\n") }
	case "group":
		l := compare.FindChangesInSchemas(s.docs[doc(f[1])], s.docs[doc(f[2])])
		before := strings.Join(changes(l), "\n")
		g := compare.GroupChanges(l)
		return func() string {
			out := []string{}
			for k, v := range g {
				out = append(out, fmt.Sprintf("%v:\n%s", k, strings.Join(changes(v), "\n")))
			}
			sort.Strings(out)
			if after := strings.Join(changes(l), "\n"); after != before {
				out = append(out, "the changes were changed", after)
			}
			return strings.Join(out, "\n")
		}
	}
	panic("unknown call " + c)
}

// call makes a call and returns what tells whether its answer stays.
func (w *caller) call(c string, look bool) func() {
	w.log(step{E: "begin", C: c})
	again := w.s.answer(c)
	a := w.note(again())
	e := step{E: "end", C: c, Answer: a}
	if look {
		e.Docs = w.s.look()
	}
	w.log(e)
	return func() { w.log(step{E: "again", C: c, Answer: w.note(again())}) }
}

// note keeps the text of an answer for the reader of a replay.
func (w *caller) note(text string) string {
	a := digest(text)
	if len(text) > 1500 {
		text = text[:1500] + "..."
	}
	w.answers[a] = text
	return a
}

// one is what a process of its own makes of a call.
type one struct {
	Texts  []string `json:"texts"`
	Call   string   `json:"call"`
	Answer string   `json:"answer"`
	Docs   []string `json:"docs"`
}

func (w *caller) elsewhere(c string) {
	o := one{Texts: w.s.texts, Call: c}
	b, _ := json.Marshal(o)
	cmd := exec.Command(os.Args[0], "-one")
	cmd.Stdin = bytes.NewReader(b)
	var out bytes.Buffer
	cmd.Stdout = &out
	w.log(step{E: "begin", C: c})
	if err := cmd.Run(); err != nil {
		panic(fmt.Sprintf("a process for %s alone: %v", c, err))
	}
	text := out.String()
	dio.Must(json.Unmarshal([]byte(text[strings.LastIndex(text, "{\"texts\""):]), &o))
	w.log(step{E: "end", C: c, Answer: w.note(o.Answer), Docs: o.Docs})
}

func alone() {
	var o one
	dio.Must(json.NewDecoder(os.Stdin).Decode(&o))
	s := &session{texts: o.Texts}
	s.parse()
	o.Answer = s.answer(o.Call)()
	o.Docs = s.look()
	o.Texts = nil
	b, _ := json.Marshal(o)
	fmt.Println(string(b))
}

func run(id string, texts []string, callers [][]string, r *rand.Rand) {
	s := &session{id: id, texts: texts, began: time.Now()}
	in := input{ID: id, Texts: texts, Callers: callers, Answers: map[string]string{}}
	s.parse()
	w := s.caller("0")
	w.log(step{E: "session", Docs: s.look()})
	sink.Try(in)
	in.Crash = dio.Guard(60*time.Second, func() {
		distinct := []string{}
		seen := map[string]bool{}
		for _, cs := range callers {
			for _, c := range cs {
				if !seen[c] {
					seen[c] = true
					distinct = append(distinct, c)
				}
			}
		}
		one := func() { // each call on its own
			for i, c := range distinct {
				if i%7 == 0 {
					w.elsewhere(c)
				}
				s.parse()
				w.call(c, true)
			}
		}
		first := r.Intn(2) == 0
		if first {
			one()
		}
		s.parse()
		if len(callers) == 1 { // one after the other
			var kept []func()
			for _, c := range callers[0] {
				kept = append(kept, w.call(c, true))
			}
			for _, again := range kept {
				again()
			}
		} else {
			var wg sync.WaitGroup
			start := make(chan bool)
			died := make(chan interface{}, len(callers))
			for i := range callers {
				wg.Add(1)
				v := s.caller(fmt.Sprint(i + 1))
				go func(i int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							died <- r
						}
					}()
					<-start
					var kept []func()
					for _, c := range callers[i] {
						kept = append(kept, v.call(c, false))
					}
					for _, again := range kept {
						again()
					}
				}(i)
			}
			close(start)
			wg.Wait()
			select {
			case r := <-died:
				panic(r)
			default:
			}
			w.log(step{E: "look", Docs: s.look()})
		}
		if !first {
			one()
		}
	})
	if in.Crash != "hang" {
		type timed struct {
			at time.Duration
			e  step
		}
		var l []timed
		for _, c := range s.all {
			for i, e := range c.steps {
				l = append(l, timed{c.at[i], e})
			}
			for a, t := range c.answers {
				in.Answers[a] = t
			}
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].at < l[j].at })
		for _, t := range l {
			sink.Event(t.e)
		}
	}
	if in.Crash != "" {
		sink.Event(step{E: "crash", ID: id, C: in.Crash, Docs: []string{}})
	}
	sink.Input(in)
}

func randomTexts(r *rand.Rand, rules []string) []string {
	pool := typePool
	if r.Intn(2) == 0 { // nothing in them was seen before
		pool = []string{}
		for _, t := range typePool {
			pool = append(pool, fmt.Sprintf("%s%d", t, r.Intn(1000000)))
		}
	}
	lint := func() string {
		for {
			g := &model.LintText{R: r, Configs: []int{0, 20}[r.Intn(2)], Line: true, Block: true, Short: r.Intn(2) == 0, Many: r.Intn(6) == 0, Rules: rules}
			t := g.Text()
			if _, err := parser.ParseSchema(&ast.Source{Input: t}); err == nil {
				return t
			}
		}
	}
	if r.Intn(3) == 0 {
		return []string{lint(), lint()}
	}
	g := model.NewGen(r, pool)
	d := g.Doc(2+r.Intn(6), 30)
	e, _ := g.Mutate(d, 1+r.Intn(12), model.AnyEdit)
	st := model.Style{R: r}
	t := []string{st.Render(d, names[:1])[0].Text, st.Render(e, names[:1])[0].Text}
	if r.Intn(3) == 0 {
		t[r.Intn(2)] = lint()
	}
	return t
}

func main() {
	out := flag.String("out", "", "output prefix")
	cases := flag.String("cases", "", "who calls what: cases of the model")
	random := flag.Int("random", 0, "number of random sessions")
	seed := flag.Int64("seed", 1, "")
	single := flag.Bool("one", false, "make the one call that is on standard input")
	flag.Parse()
	if *single {
		alone()
		return
	}
	sink = dio.NewSink(*out, 1)
	rules := []string{}
	for _, r := range linter.AllTheRules {
		rules = append(rules, string(r.Name))
	}
	k := 0
	if *cases != "" {
		dio.Lines(*cases, func(b []byte) {
			k++
			if !dio.Mine() {
				return
			}
			var c struct {
				Callers [][][]string `json:"callers"`
			}
			dio.Must(json.Unmarshal(b, &c))
			var callers [][]string
			for _, cs := range c.Callers {
				l := []string{}
				for _, x := range cs {
					l = append(l, strings.Join(x, " "))
				}
				callers = append(callers, l)
			}
			r := rand.New(rand.NewSource(*seed*1000003 + int64(k)))
			run(fmt.Sprintf("plan-%d", k), randomTexts(r, rules), callers, r)
		})
	}
	for i := 0; i < *random; i++ {
		if !dio.Mine() {
			continue
		}
		r := rand.New(rand.NewSource(*seed*1000003 + 500000 + int64(i)))
		callers := make([][]string, 1+r.Intn(5))
		for j := range callers {
			for n := 3 + r.Intn(10); n > 0; n-- {
				d, e := fmt.Sprint(1+r.Intn(2)), fmt.Sprint(1+r.Intn(2))
				callers[j] = append(callers[j], []string{"rule " + fmt.Sprint(1+r.Intn(9)) + " " + d, "lint all " + d, "select some " + d, "select none " + d,
					"compare " + d + " " + e, "group " + d + " " + e, "compare 1 2", "compare 2 1"}[r.Intn(8)])
			}
		}
		run(fmt.Sprintf("random-%d", i), randomTexts(r, rules), callers, r)
	}
	sink.Close()
	fmt.Println("events", sink.N)
}
