package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/gqlerror"
	"github.com/vektah/gqlparser/v2/parser"

	dio "gqlverif/io"
)

type side struct {
	Form  string   `json:"form"`
	Files []string `json:"files"`
}

type scenario struct {
	Cmd   string `json:"cmd"`
	Same  bool   `json:"same"`
	Sides []side `json:"sides"`
}

type faultEvent struct {
	ID     string     `json:"id"`
	SC     scenario   `json:"sc"`
	Path   []string   `json:"path"` // of each side
	Name   [][]string `json:"name"` // of each file
	Why    [][]string `json:"why"`  // what is wrong with it, according to the operating system and the parser
	Status int        `json:"status"`
	Crash  string     `json:"crash"`
	Text   string     `json:"text"`
	Lines  []string   `json:"lines"`
}

type faultInput struct {
	ID    string            `json:"id"`
	SC    scenario          `json:"sc"`
	Args  []string          `json:"args"`
	Files map[string]string `json:"files"`
	Out   string            `json:"out"`
	Err   string            `json:"err"`
}

var texts = map[string][]string{
	"clean": {"\"d\" type Clean%d {\n  \"d\" id: ID\n}\n", "# nothing wrong here\n\"d\"\nscalar Clean%d", "\"d\" enum Clean%d { \"d\" X }", "directive @clean%d on FIELD"},
	"dirty": {"type Dirty%d {\n  bad_name: ID\n}\n", "type dirty%d", "enum Dirty%d { x }", "input Dirty%d { A: Int }\nextend type Other { b_c: Int }"},
	"empty": {""},
	"broken": {"type Broken%d {", "type Broken%d { a: }", "typ Broken%d { a: Int }", "type Broken%d { a Int }", "\"d\" type Clean%d {\n  \"d\" id: ID\n}\n}", "query Broken%d { a }", "type Good%d { a: Int }\ntype { b: Int }", "union Broken%d = ",
		"enum Broken%d { }", "input Broken%d { a: Int! = }", "directive @broken%d on", "type Broken%d implements { a: Int }", "type Broken%d { a: [Int }", "extend type Broken%d", "schema { a: Broken%d }", "{ broken%d }", "\"d\"\"d\" type Broken%d", "type Broken%d { a(b: Int: Int }"},
	"torn": {"type Torn%d { a: String }\n\"unterminated", "\"\"\"unterminated\ntype Torn%d { a: Int }", "type Torn%d { a: Int } ~", "type Torn%d { a(b: String = \"x\ny\"): Int }", "type Torn%d { a(b: Float = 1.): Int }", "type Torn%d \x01", "\"\\x\" type Torn%d", "type Torn%d . type B"},
}

func parseError(name, text string) string {
	_, err := parser.ParseSchema(&ast.Source{Name: name, Input: text})
	if err == nil {
		return ""
	}
	var g *gqlerror.Error
	if errors.As(err, &g) {
		return g.Message
	}
	return err.Error()
}

// makeFile puts a file of the given condition at a path and says why it cannot be used.
func makeFile(r *rand.Rand, dir, name, cond string, k int) (text, why string) {
	p := filepath.Join(dir, name)
	dio.Must(os.MkdirAll(filepath.Dir(p), 0o755))
	switch cond {
	case "dangling":
		dio.Must(os.Symlink("nowhere", p))
	case "loop":
		dio.Must(os.Symlink(filepath.Base(p), p))
	case "socket":
		// bound through a descriptor of the directory: socket paths are short
		fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
		dio.Must(err)
		d, err := os.Open(filepath.Dir(p))
		dio.Must(err)
		dio.Must(syscall.Bind(fd, &syscall.SockaddrUnix{Name: fmt.Sprintf("/proc/self/fd/%d/%s", d.Fd(), filepath.Base(p))}))
		d.Close()
		syscall.Close(fd)
	case "dir":
		dio.Must(os.Mkdir(p, 0o755))
	case "locked":
		if nobody == nil {
			return "", ""
		}
		dio.Must(os.WriteFile(p, []byte("type Locked { a: Int }"), 0o644))
		dio.Must(os.Chmod(p, 0))
		return "", syscall.EACCES.Error()
	case "ioerror":
		dio.Must(os.Symlink("/proc/self/mem", p))
	default:
		l := texts[cond]
		for {
			text = l[r.Intn(len(l))]
			if strings.Contains(text, "%d") {
				text = fmt.Sprintf(text, k)
			}
			why = parseError(name, text)
			if (why != "") == (cond == "broken" || cond == "torn") {
				break
			}
		}
		dio.Must(os.WriteFile(p, []byte(text), 0o644))
		return text, why
	}
	_, err := os.ReadFile(p)
	if err == nil {
		return "", ""
	}
	for _, e := range []error{syscall.ENOENT, syscall.ELOOP, syscall.ENXIO, syscall.EISDIR, syscall.EIO} {
		if errors.Is(err, e) {
			return "", e.Error()
		}
	}
	return "", err.Error()
}

func faultCase(id string, sc scenario, r *rand.Rand) (interface{}, interface{}) {
	dir := dirFor(nil)
	defer os.RemoveAll(dir)
	ev, in, args, stdin := materialise(id, dir, sc, r)
	if ev == nil {
		return nil, nil // not to be had here
	}
	var from io.Reader = strings.NewReader("type FromStdin { a: Int }")
	if stdin != nil {
		defer stdin.Close()
		from = stdin
	}
	res := runAs(nobody, dir, from, nil, nil, args...)
	ev.Status, ev.Crash, ev.Text = res.Status, res.Crash, res.Out+"\n"+res.Err
	ev.Lines = append(lines(res.Out), lines(res.Err)...)
	in.Args, in.Out, in.Err = args, res.Out, res.Err
	return ev, in
}

// materialise makes the files of a scenario and the command line for it.
func materialise(id, dir string, sc scenario, r *rand.Rand) (*faultEvent, *faultInput, []string, *os.File) {
	ev := faultEvent{ID: id, SC: sc, Path: []string{}, Name: [][]string{}, Why: [][]string{}, Lines: []string{}}
	in := faultInput{ID: id, SC: sc, Files: map[string]string{}}
	args := []string{sc.Cmd}
	opts := [][]string{}
	last := []string{}
	var stdin *os.File
	for s, sd := range sc.Sides {
		d := []string{"left", "right"}[s]
		short, long := [][]string{{"o", "oldversion"}, {"n", "newversion"}}[s][0], [][]string{{"o", "oldversion"}, {"n", "newversion"}}[s][1]
		if sc.Cmd == "lint" {
			short, long = "f", "filepath"
		}
		if sc.Same {
			d = "left"
		}
		names, whys := []string{}, []string{}
		odd := ""
		if r.Intn(2) == 0 {
			odd = strings.TrimSuffix(oddNames[r.Intn(len(oddNames))], ".graphql")
		}
		for i, c := range sd.Files {
			n := fmt.Sprintf("%s/f%d%s.graphql", d, i+1, odd)
			if s == 1 && sc.Same {
				names, whys = ev.Name[0], ev.Why[0]
				break
			}
			text, why := makeFile(r, dir, n, c, s*10+i)
			if why == "" && strings.Contains("dangling loop socket dir ioerror locked", c) {
				return nil, nil, nil, nil
			}
			in.Files[n] = c + ": " + text
			names, whys = append(names, n), append(whys, why)
		}
		path := ""
		switch sd.Form {
		case "pattern":
			path = d + "/" + []string{"*.graphql", "f?*.graphql", "*"}[r.Intn(3)]
			if sc.Same {
				path = d + "/*"
			}
		case "plain":
			path = names[0]
			if !plain(path) { // the same file, said in a way that matches it
				path = strings.NewReplacer("*", "\\*", "[", "\\[", "\\", "\\\\").Replace(path)
			}
		case "stdin":
			f, err := os.Open(filepath.Join(dir, names[0]))
			if err != nil {
				return nil, nil, nil, nil
			}
			stdin = f
			names[0], path = "stdin", "stdin"
		case "nomatch":
			path = d + "/" + []string{"none.graphql", "none*.graphql", "*/none"}[map[bool]int{true: 0, false: r.Intn(3)}[sc.Same]]
		case "badpattern":
			path = d + "/[a"
			dio.Must(os.MkdirAll(filepath.Join(dir, d), 0o755))
			dio.Must(os.WriteFile(filepath.Join(dir, d, "x"), nil, 0o644))
		}
		ev.Path, ev.Name, ev.Why = append(ev.Path, path), append(ev.Name, names), append(ev.Why, whys)
		switch sd.Form {
		case "stdin", "absent":
		case "novalue":
			if len(last) == 0 {
				last = []string{[]string{"-" + short, "--" + long}[r.Intn(2)]}
			}
		case "emptyvalue":
			opts = append(opts, [][]string{{"-" + short, ""}, {"--" + long, ""}, {"--" + long + "="}}[r.Intn(3)])
		default:
			opts = append(opts, option(r, short, long, path))
		}
	}
	if sc.Cmd == "lint" && r.Intn(3) == 0 {
		opts = append(opts, []string{"-r", "type-desc,field-camel"})
	} else if sc.Cmd == "compare" {
		for _, o := range []string{"-b", "-e"} {
			if r.Intn(3) == 0 {
				opts = append(opts, []string{o})
			}
		}
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	for _, o := range opts {
		args = append(args, o...)
	}
	args = append(args, last...)
	return &ev, &in, args, stdin
}

// faults runs the scenarios of the model.
func faults(cases string, seed int64, sink *dio.Sink) {
	f, err := os.Open(cases)
	dio.Must(err)
	defer f.Close()
	var scs []scenario
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var x scenario
		dio.Must(json.Unmarshal(sc.Bytes(), &x))
		scs = append(scs, x)
	}
	left := len(scs)
	parallel(len(scs), func(i int) (interface{}, interface{}) {
		return faultCase(fmt.Sprintf("scenario-%d", i), scs[i], rand.New(rand.NewSource(seed*7919+int64(i))))
	}, func(i int, ev, in interface{}) {
		left--
		sink.Put(ev, in)
	})
	if left > 0 {
		fmt.Println("not materialised:", left)
	}
}
