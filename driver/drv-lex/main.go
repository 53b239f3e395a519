// drv-lex runs the linter's tokenizer and the schema parser's tokenizer on texts and records every token.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/CrowdStrike/gql/cmd/linter/lexer"
	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/gqlerror"
	reflexer "github.com/vektah/gqlparser/v2/lexer"

	dio "gqlverif/io"
	"gqlverif/model"
)

type tok struct {
	K string `json:"k"`
	V []int  `json:"v"`
	S int    `json:"s"`
	E int    `json:"e"`
	L int    `json:"l"`
	C int    `json:"c"`
}

type event struct {
	ID    string `json:"id"`
	Text  []int  `json:"text"`
	Gql   []tok  `json:"gql"`
	Ref   []tok  `json:"ref"`
	Crash string `json:"crash"`
}

type input struct {
	ID   string `json:"id"`
	Text string `json:"text"`
}

func cps(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

func mk(kind, value string, p ast.Position, err error) (tok, bool) {
	if err != nil {
		t := tok{K: "ERROR", V: []int{}, L: p.Line, C: p.Column}
		if ge, ok := err.(*gqlerror.Error); ok && len(ge.Locations) == 1 { // what a user gets to see
			t.L, t.C = ge.Locations[0].Line, ge.Locations[0].Column
		}
		return t, true
	}
	return tok{K: kind, V: cps(value), S: p.Start, E: p.End, L: p.Line, C: p.Column}, kind == "EOF"
}

func gql(text string) []tok {
	r := []tok{}
	lx := lexer.New(&ast.Source{Name: "t", Input: text})
	for i := 0; i < len(text)+3; i++ {
		t, err := lx.ReadToken()
		x, last := mk(t.Kind.Name(), t.Value, t.Pos, err)
		r = append(r, x)
		if last {
			break
		}
	}
	return r
}

func ref(text string) []tok {
	r := []tok{}
	lx := reflexer.New(&ast.Source{Name: "t", Input: text})
	for {
		t, err := lx.ReadToken()
		x, last := mk(t.Kind.Name(), t.Value, t.Pos, err)
		r = append(r, x)
		if last {
			return r
		}
	}
}

var sink *dio.Sink

func emit(id, text string) {
	ev := event{ID: id, Text: cps(text), Gql: []tok{}, Ref: ref(text)}
	sink.Try(input{id, text})
	ev.Crash = dio.Guard(20*time.Second, func() {
		r := gql(text)
		ev.Gql = r
	})
	sink.Put(ev, input{id, text})
	if ev.Crash == "hang" {
		sink.Close()
		os.Exit(0)
	}
}

// universes of texts: all sequences of the units up to a length
var universes = map[string][]string{
	"strings": {`"`, `\`, "\n", "#", "a", `"""`},
	"blocks":  {`"""`, `\`, "\n", "\r", " ", "x", `"`},
	"numbers": {"-", "0", "1", ".", "e", "+", "a"},
	"lines":   {"\n", "\r", " ", "#", "a", "\ufeff", "\u00e9"},
	"punct":   {".", "!", "{", "#", "a", "\t", "\x01", "'"},
	"escapes": {`\`, "u", "00", "D8", "e", `"`, "n", "g"},
	"codes":   {`\uD83D`, `\uDE00`, `\ud800`, `\udfff`, `\uD7FF`, `\uE000`, `\uFFFF`, `\u0000`, `\u005c`, "x", `\n`, "\U0001F600"},
	"indents": {"\n", " ", "\t", "x", `\"""`},
	"layout":  {"\n", "\n\t", "\n  ", "\r\n x", "\n  x", "\n\t\tx", "   x", "\n    x  ", "\r   "},
	"all": {"!", "$", "&", "(", ")", "...", ":", "=", "@", "[", "]", "{", "}", "|", "_", "Z", "9", "-1.5e+3", `"s"`, `"""b"""`, "#c", "\n", "\r\n", ",", "\ufeff", "~", "\u4e16", "\U0001F600", "?", "\x7f",
		"\x00", ";", "/", "."},
}

func wrap(u, s string) string {
	switch u {
	case "escapes", "codes":
		return `"` + s + `" z`
	case "indents", "layout":
		return `"""` + s + `"""#c`
	}
	return s
}

func enumerate(u string, n int, f func(string)) {
	var rec func(string, int)
	rec = func(p string, k int) {
		f(p)
		if k == 0 {
			return
		}
		for _, x := range universes[u] {
			rec(p+x, k-1)
		}
	}
	rec("", n)
}

// contexts in which every single character is tried
var contexts = []string{"%", "a%", "%a", "a\n%b", "1%", "-%", "0%1", "1.%", "1.5e%", "2E-%", "\"%\"", "\"x%y\" z", "\"%", "\"\\%\" z", "\"\\\\%\"", "\"\\u%041\"", "\"\\u0%41\"", "\"\\u00%1\"", "\"\\u004%\" z", "\"\\u%%%%\"", "\"\\u004%", "\"\"\"%\"\"\"a", "\"\"\"x%y\"\"\"",
	"\"\"\"\\%\"\"\"", "\"\"\"\n  x\n%\n\"\"\"", "\"\"\"\n  x\n %y\"\"\"", "#%", "# %\na", "..%", ".%.", "a%%b"}

// tables has every character of the first blocks and some others in every context, and all pairs of ASCII characters.
func tables(f func(id, text string)) {
	chars := []string{}
	for c := 0; c < 0x100; c++ {
		chars = append(chars, string(rune(c)))
	}
	for _, c := range []rune{0x130, 0x2ff, 0x660, 0x7ff, 0x800, 0x2000, 0x2028, 0x2029, 0x3000, 0xd7ff, 0xe000, 0xfefe, 0xfeff, 0xff00, 0xff10, 0xff21, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff} {
		chars = append(chars, string(c))
	}
	chars = append(chars, "\r\n", "\n\r", "\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xf0\x9f")
	for i, c := range contexts {
		for j, x := range chars {
			f(fmt.Sprintf("table-%d-%d", i, j), strings.ReplaceAll(c, "%", x))
		}
	}
	for a := 0; a < 128; a++ {
		for b := 0; b < 128; b++ {
			f(fmt.Sprintf("pair-%d-%d", a, b), string(rune(a))+string(rune(b)))
		}
	}
	for _, h := range "09afAF" { // hexadecimal digits at every place
		for _, g := range "09afAF1bC" {
			f(fmt.Sprintf("hex-%c%c", h, g), fmt.Sprintf(`"\u%c0%c0\u0%c0%c" "\u%c%c%c%c"`, h, g, h, g, g, h, h, g))
		}
	}
}

func random(r *rand.Rand) string {
	pieces := []string{`"`, `\`, "\n", "\r", "\r\n", "#", "a", `"""`, " ", "\t", ",", "\ufeff", "type", "{", "}", "(", ")", ":", "!", "...", ".", "1", "-", "0", "e", "+", "é", "世", "\U0001F600", "\\u00e9", "\\uD83D", "\\uDE00", "\\n", "\\\"", `\"""`,
		"#lint-disable x", "@", "=", "|", "&", "[", "]", "$", "\x7f", "\u2028", "\u0085", "_", "Zz9", "\x0b", "\xff", "\xe2\x82"}
	var b strings.Builder
	inBlock := 0
	clean := r.Intn(3) > 0 // mostly without errors
	for i := 1 + r.Intn(30); i > 0; i-- {
		p := pieces[r.Intn(len(pieces))]
		if clean {
			switch p {
			case `"`, `\`, `"""`, ".", "-", "\\u00e9", "\\uD83D", "\\uDE00", "\\n", "\\\"", `\"""`, "é", "世", "\U0001F600", "\x7f", "\u2028", "\u0085", "\x0b", "0", "1":
				p = []string{"# é 世 \U0001F600\n", "-0.5e-7 ", "12 ", "# \"\"\" \n", "#", " a1_ ", "0 ", "\n", "1.5 "}[r.Intn(9)]
			}
		}
		if p == "\x0b" && r.Intn(5) > 0 {
			continue
		}
		if r.Intn(8) == 0 { // a whole block string
			b.WriteString(`"""`)
			for j := r.Intn(8); j > 0; j-- {
				b.WriteString([]string{"\n", "\r\n", "  ", "\t", "x", `"`, `\"""`, "é", "# no comment", "\\", "\n    y", " "}[r.Intn(12)])
			}
			b.WriteString(`"""`)
			inBlock++
			continue
		}
		if r.Intn(8) == 0 { // a whole string
			b.WriteString(`"`)
			for j := r.Intn(6); j > 0; j-- {
				b.WriteString([]string{`\"`, `\\`, `\n`, `\u0041`, "#x", "é", " ", `\/`, `\b`, `\ud800`, "'", "世"}[r.Intn(12)])
			}
			b.WriteString(`"`)
			continue
		}
		b.WriteString(p)
	}
	return b.String()
}

func main() {
	out := flag.String("out", "", "")
	shards := flag.Int("shards", 8, "")
	univ := flag.String("universes", "", "NAME:LENGTH,...")
	n := flag.Int("random", 0, "")
	tab := flag.Bool("tables", false, "")
	schemas := flag.Int("schemas", 0, "")
	seed := flag.Int64("seed", 1, "")
	replay := flag.String("replay", "", "")
	flag.Parse()
	sink = dio.NewSink(*out, *shards)
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		dio.Must(err)
		var in input
		dio.Must(json.Unmarshal(b, &in))
		emit(in.ID, in.Text)
	}
	for _, p := range strings.FieldsFunc(*univ, func(r rune) bool { return r == ',' }) {
		var k int
		i := strings.IndexByte(p, ':')
		_, err := fmt.Sscan(p[i+1:], &k)
		dio.Must(err)
		c := 0
		enumerate(p[:i], k, func(s string) {
			if dio.Mine() {
				emit(fmt.Sprintf("%s-%d", p[:i], c), wrap(p[:i], s))
			}
			c++
		})
	}
	if *tab {
		tables(func(id, text string) {
			if dio.Mine() {
				emit(id, text)
			}
		})
	}
	for i := 0; i < *n; i++ {
		if !dio.Mine() {
			continue
		}
		emit(fmt.Sprintf("random-%d", i), random(rand.New(rand.NewSource(*seed*1000003+int64(i)))))
	}
	for i := 0; i < *schemas; i++ {
		if !dio.Mine() {
			continue
		}
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		g := model.NewGen(r, []string{"A", "B", "C", "Query"})
		d := g.Doc(1+r.Intn(3), 30)
		text := model.Style{R: r}.Render(d, []string{"x"})[0].Text
		if r.Intn(3) == 0 { // cut it somewhere
			rs := []rune(text)
			text = string(rs[:r.Intn(len(rs)+1)])
		}
		emit(fmt.Sprintf("schema-%d", i), text)
	}
	sink.Close()
	fmt.Println("events", sink.N)
}
