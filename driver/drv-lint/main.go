// drv-lint runs the lint rules (-mode rules) or the linter with inline configuration (-mode scan) on documents and texts.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"strings"
	"time"

	cmdlinter "github.com/CrowdStrike/gql/cmd/linter"
	"github.com/CrowdStrike/gql/pkg/linter"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"

	dio "gqlverif/io"
	"gqlverif/model"
)

type lintErr struct {
	By   string `json:"by"`
	Rule string `json:"rule"`
	L    int    `json:"l"`
	C    int    `json:"c"`
	Msg  string `json:"msg"`
	Text string `json:"text"`
}

type rulesEvent struct {
	ID    string     `json:"id"`
	Doc   *model.Doc `json:"doc"`
	Errs  []lintErr  `json:"errs"` // each rule on its own
	All   []lintErr  `json:"all"`  // the linter with all rules
	Crash string     `json:"crash"`
}

type scanEvent struct {
	ID    string    `json:"id"`
	Text  []int     `json:"text"`
	Raw   []lintErr `json:"raw"`
	Out   []lintErr `json:"out"`
	Crash string    `json:"crash"`
}

type input struct {
	ID    string   `json:"id"`
	Text  string   `json:"text"`
	Rules []string `json:"rules"`
	Out   []string `json:"report"`
	Crash string   `json:"crash"`
}

// a case of the model: a document, or the codepoints of a text
type mcase struct {
	ID  string     `json:"id"`
	Doc *model.Doc `json:"doc"`
	CPs []int      `json:"cps"`
}

var (
	posPrefix = regexp.MustCompile(`^-?\d+:-?\d+ `)
	sink      *dio.Sink
	pj        model.Projector
	skipped   int
)

func parse(text string) (*ast.SchemaDocument, error) {
	return parser.ParseSchema(&ast.Source{Name: "f.graphql", Input: text})
}

func conv(by string, l []linter.LintErrorWithMetadata) []lintErr {
	r := []lintErr{}
	for _, e := range l {
		m := e.Err.Error()
		r = append(r, lintErr{By: by, Rule: string(e.Rule), L: e.Line, C: e.Column, Msg: m, Text: posPrefix.ReplaceAllString(m, "")})
	}
	return r
}

func show(l []lintErr) []string {
	r := []string{}
	for _, e := range l {
		r = append(r, fmt.Sprintf("%d:%d [%s] %s", e.L, e.C, e.Rule, e.Msg))
	}
	return r
}

func cps(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

func finish(crash string) {
	if crash == "hang" {
		sink.Close()
		os.Exit(0)
	}
}

func emitRules(id, text string) {
	d, err := parse(text)
	dio.Must(err)
	ev := rulesEvent{ID: id, Doc: pj.Project(d), Errs: []lintErr{}, All: []lintErr{}}
	sink.Try(input{ID: id, Text: text})
	ev.Crash = dio.Guard(20*time.Second, func() {
		errs := []lintErr{}
		var fs []linter.LintRuleFunc
		for _, r := range linter.AllTheRules {
			s, _ := parse(text)
			errs = append(errs, conv(string(r.Name), r.RuleFunction(s))...)
			fs = append(fs, r.RuleFunction)
		}
		ev.Errs = errs
		ev.All = conv("", cmdlinter.Lint("f.graphql", text, fs))
	})
	sink.Put(ev, input{ID: id, Text: text, Out: show(ev.Errs), Crash: ev.Crash})
	finish(ev.Crash)
}

func emitScan(id, text string, sel func(string) bool) {
	if _, err := parse(text); err != nil {
		skipped++
		return
	}
	ev := scanEvent{ID: id, Text: cps(text), Raw: []lintErr{}, Out: []lintErr{}}
	names := []string{}
	sink.Try(input{ID: id, Text: text})
	ev.Crash = dio.Guard(20*time.Second, func() {
		var fs []linter.LintRuleFunc
		raw := []lintErr{}
		for _, r := range linter.AllTheRules {
			if sel == nil || sel(string(r.Name)) {
				s, _ := parse(text)
				raw = append(raw, conv(string(r.Name), r.RuleFunction(s))...)
				fs = append(fs, r.RuleFunction)
				names = append(names, string(r.Name))
			}
		}
		ev.Raw = raw
		ev.Out = conv("", cmdlinter.Lint("f.graphql", text, fs))
	})
	sink.Put(ev, input{ID: id, Text: text, Rules: names, Out: show(ev.Out), Crash: ev.Crash})
	finish(ev.Crash)
}

// far moves two lines of a text a round number of lines apart: if there is one, a line with an inline configuration and
// another.
func far(r *rand.Rand, text string) string {
	ls := strings.SplitAfter(text, "\n")
	var with []int
	for i, l := range ls {
		if strings.Contains(l, "#lint-") {
			with = append(with, i)
		}
	}
	a, b := r.Intn(len(ls)), r.Intn(len(ls))
	if len(with) > 0 {
		a = with[r.Intn(len(with))]
		b = a - 3 + r.Intn(7)
	}
	if b < 0 || b >= len(ls) || a == b {
		b = (a + 1) % len(ls)
	}
	if a > b {
		a, b = b, a
	}
	by := []int{16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048}[r.Intn(10)] - (b - a)
	if a == b || by < 0 {
		return text
	}
	at := a + 1 + r.Intn(b-a)
	return strings.Join(ls[:at], "") + strings.Repeat("\n", by) + strings.Join(ls[at:], "")
}

func strip(d *model.Doc) string {
	c := model.Clone(d)
	model.ZeroPos(reflect.ValueOf(c))
	b, _ := json.Marshal(c)
	return string(b)
}

func main() {
	mode := flag.String("mode", "rules", "rules or scan")
	out := flag.String("out", "", "")
	shards := flag.Int("shards", 8, "")
	cases := flag.String("cases", "", "cases of the model")
	random := flag.String("random", "", "PROFILE:N,... of all, block (no lint-disable-line), line, strings, ends, rules (no configuration)")
	seed := flag.Int64("seed", 1, "")
	replay := flag.String("replay", "", "")
	flag.Parse()
	sink = dio.NewSink(*out, *shards)
	run := func(id, text string, sel func(string) bool) {
		if *mode == "rules" {
			emitRules(id, text)
		} else {
			emitScan(id, text, sel)
		}
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		dio.Must(err)
		var in input
		dio.Must(json.Unmarshal(b, &in))
		run(in.ID, in.Text, func(r string) bool {
			for _, x := range in.Rules {
				if x == r {
					return true
				}
			}
			return len(in.Rules) == 0
		})
	}
	if *cases != "" {
		n := 0
		dio.Lines(*cases, func(b []byte) {
			n++
			if !dio.Mine() {
				return
			}
			var c mcase
			dio.Must(json.Unmarshal(b, &c))
			c.ID = fmt.Sprintf("%s-%d", c.ID, n)
			if c.Doc == nil {
				text := ""
				for _, x := range c.CPs {
					text += string(rune(x))
				}
				run(c.ID, text, nil)
				return
			}
			text := model.Style{}.Render(c.Doc, []string{"f.graphql"})[0].Text
			d, err := parse(text)
			if err != nil || strip(pj.Project(d)) != strip(c.Doc) {
				dio.Must(fmt.Errorf("case %s is not rendered faithfully (%v):\n%s", c.ID, err, text))
			}
			run(c.ID, text, nil)
			if *mode == "rules" && n%3 == 0 { // once more, in another layout
				text := model.Style{R: rand.New(rand.NewSource(*seed*1000003 + int64(n)))}.Render(c.Doc, []string{"f.graphql"})[0].Text
				_, err := parse(text)
				dio.Must(err)
				run(c.ID+"-layout", text, nil)
			}
		})
	}
	for _, part := range strings.FieldsFunc(*random, func(r rune) bool { return r == ',' }) {
		var n int
		k := strings.IndexByte(part, ':')
		_, err := fmt.Sscan(part[k+1:], &n)
		dio.Must(err)
		profile := part[:k]
		for i := 0; i < n; i++ {
			if !dio.Mine() {
				continue
			}
			r := rand.New(rand.NewSource(*seed*1000003 + int64(len(profile))*7919 + int64(i)))
			g := &model.LintText{R: r, Configs: []int{0, 10, 25, 50}[r.Intn(4)], Line: true, Block: true, Strings: r.Intn(2) == 0, Ends: r.Intn(3) == 0, Short: r.Intn(3) > 0, Dense: r.Intn(4) == 0, Many: r.Intn(8) == 0}
			switch profile {
			case "block":
				g.Line, g.Configs = false, 20+r.Intn(50)
			case "line":
				g.Configs, g.Block = 20+r.Intn(50), r.Intn(3) == 0
			case "strings":
				g.Strings, g.Ends, g.Configs = true, r.Intn(2) == 0, 5+r.Intn(30)
			case "ends":
				g.Ends, g.Configs = true, 10+r.Intn(40)
			case "rules":
				g.Configs, g.Strings, g.Ends, g.Short = 0, r.Intn(4) == 0, r.Intn(4) == 0, r.Intn(3) == 0
			}
			for _, x := range linter.AllTheRules {
				g.Rules = append(g.Rules, string(x.Name))
			}
			if r.Intn(2) == 0 {
				g.Rules = g.Rules[:2+r.Intn(len(g.Rules)-1)]
			}
			var sel func(string) bool
			if r.Intn(3) == 0 {
				mask := r.Intn(1 << 9)
				k := 0
				m := map[string]bool{}
				for _, x := range linter.AllTheRules {
					m[string(x.Name)] = mask>>k&1 == 1
					k++
				}
				sel = func(s string) bool { return m[s] }
			}
			text := g.Text()
			if profile != "rules" && i%12 == 5 {
				text = far(r, text)
			}
			if _, err := parse(text); err != nil {
				skipped++
				if os.Getenv("SHOWSKIP") != "" {
					fmt.Println(err, "\n", text)
				}
				continue
			}
			run(fmt.Sprintf("%s-%d", profile, i), text, sel)
		}
	}
	sink.Close()
	fmt.Println("events", sink.N, "skipped", skipped)
}
