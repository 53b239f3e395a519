package model

import (
	"fmt"
	"math/rand"
	"strings"
)

// Style decides how a Doc is laid out as text. The zero Rand gives the plain layout.
type Style struct {
	R *rand.Rand
}

func (s Style) yes(n int) bool { return s.R != nil && s.R.Intn(n) == 0 }

func (s Style) pick(plain string, others ...string) string {
	if s.R == nil {
		return plain
	}
	i := s.R.Intn(len(others) + 2)
	if i < len(others) {
		return others[i]
	}
	return plain
}

// ws is a separator that must be present, opt one that may be empty.
func (s Style) ws() string {
	return s.pick(" ", "  ", "\t", "\n", " # note\n", "\r\n", ",", " , \n\n")
}
func (s Style) opt() string {
	return s.pick("", " ", "\n", "\t", " #c \"x\n", ",")
}
func (s Style) nl(indent string) string {
	return s.pick("\n"+indent, "\n\n"+indent, "\r\n"+indent, " \n# comment { } ' \n"+indent, "\n\t"+indent, " ", ", ")
}

func TypeString(t *Type) string {
	s := t.Name
	if t.List {
		s = "[" + TypeString(t.Elem[0]) + "]"
	}
	if t.NN {
		s += "!"
	}
	return s
}

func (s Style) typ(t *Type) string {
	r := t.Name
	if t.List {
		r = "[" + s.opt() + s.typ(t.Elem[0]) + s.opt() + "]"
	}
	if t.NN {
		r += s.opt() + "!"
	}
	return r
}

func quote(d string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range d {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r < 0x20:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// desc writes a description; block strings only where they cannot alter the text.
func (s Style) desc(d, indent string) string {
	if d == "" {
		if s.yes(12) {
			return `""` + s.nl(indent)
		}
		return ""
	}
	plain := !strings.ContainsAny(d, "\"\\\n\r\t") && strings.TrimSpace(d) == d
	if plain && s.yes(3) {
		return `"""` + s.pick("", "\n", "\n\n    ", "\r\n") + d + s.pick("", "\n", "\n  ") + `"""` + s.nl(indent)
	}
	if strings.Contains(d, "\n") && s.yes(2) {
		if b, ok := block(d, s.pick("  ", "", "\t ", "    "), s.pick("\n", "\r\n")); ok {
			return b + s.nl(indent)
		}
	}
	return quote(d) + s.nl(indent)
}

// block writes a text of several lines as a block string, if that does not alter it.
func block(d, indent, nl string) (string, bool) {
	if strings.ContainsAny(d, "\"\\\r\t") {
		return "", false
	}
	lines := strings.Split(d, "\n")
	if lines[0] == "" || lines[len(lines)-1] == "" {
		return "", false
	}
	r := `"""` + nl
	for _, l := range lines {
		if strings.HasPrefix(l, " ") {
			return "", false
		}
		if l != "" {
			r += indent + l
		}
		r += nl
	}
	return r + indent + `"""`, true
}

// val writes a value in another layout: blanks, and block strings for plain strings.
func (s Style) val(v string) string {
	if s.R == nil || !s.yes(4) {
		return v
	}
	r := ""
	for i := 0; i < len(v); i++ {
		if v[i] == '"' {
			j := i + 1
			for v[j] != '"' {
				if v[j] == '\\' {
					j++
				}
				j++
			}
			in := v[i+1 : j]
			if in != "" && strings.TrimSpace(in) == in && !strings.ContainsRune(in, '\\') && s.yes(2) {
				r += `"""` + s.pick("", "\n", "\n  ") + in + s.pick("", "\n") + `"""`
			} else {
				r += v[i : j+1]
			}
			i = j
			continue
		}
		switch v[i] {
		case ',':
			r += s.pick(", ", " ", "\n", ",")
		case ':':
			r += s.pick(": ", ":", "\n:")
		case '[', '{':
			r += v[i:i+1] + s.opt()
		case ']', '}':
			r += s.opt() + v[i:i+1]
		default:
			r += v[i : i+1]
		}
	}
	return r
}

func (s Style) apps(l []App) string {
	r := ""
	for _, a := range l {
		r += s.ws() + "@" + s.opt() + a.Name
		if len(a.Args) > 0 {
			r += s.opt() + "("
			for i, x := range a.Args {
				if i > 0 {
					r += s.pick(", ", " ", "\n", ",,")
				}
				r += x.Name + s.opt() + ":" + s.pick(" ", "", "\n") + s.val(x.Val)
			}
			r += s.opt() + ")"
		}
	}
	return r
}

func (s Style) args(l []Arg, indent string) string {
	if len(l) == 0 {
		return ""
	}
	r := s.opt() + "("
	for i, a := range l {
		if i > 0 {
			r += s.pick(", ", " ", ","+s.nl(indent))
		}
		if s.yes(3) {
			r += s.nl(indent)
		}
		r += s.desc(a.Desc, indent) + a.Name + s.opt() + ":" + s.pick(" ", "") + s.typ(a.Type)
		if a.Def != Nil {
			r += s.pick(" ", "") + "=" + s.pick(" ", "") + s.val(a.Def)
		}
		r += s.unseen(12)
	}
	return r + s.opt() + ")"
}

func (s Style) list(l []string, sep, lead string) string {
	r := s.pick("", lead+" ")
	for i, x := range l {
		if i > 0 {
			r += s.pick(" ", "") + sep + s.pick(" ", "", "\n  ")
		}
		r += x
	}
	return r
}

// unseen are directives where nothing is made of them: on schemas and arguments.
func (s Style) unseen(n int) string {
	if !s.yes(n) {
		return ""
	}
	return s.ws() + []string{"@deprecated", "@link(url: \"u\")", "@da(x: 1) @da(x: 2)", "@deprecated(reason: \"old\")"}[s.R.Intn(4)] + s.opt()
}

// Def renders one type definition or extension.
func (s Style) Def(d Def, ext bool) string {
	kw := map[string]string{"OBJECT": "type", "INTERFACE": "interface", "UNION": "union", "ENUM": "enum", "INPUT_OBJECT": "input", "SCALAR": "scalar"}[d.Kind]
	r := s.desc(d.Desc, "")
	if ext {
		r += "extend" + s.ws()
	}
	r += kw + s.ws() + d.Name
	if len(d.Ifaces) > 0 {
		r += s.ws() + "implements" + s.ws() + s.list(d.Ifaces, "&", "&")
	}
	r += s.apps(d.Dirs)
	if len(d.Members) > 0 {
		r += s.ws() + "=" + s.opt() + s.list(d.Members, "|", "|")
	}
	if len(d.Fields)+len(d.Values) > 0 {
		r += s.pick(" ", "", "\n") + "{"
		in := "  "
		for _, f := range d.Fields {
			r += s.nl(in) + s.desc(f.Desc, in) + f.Name + s.args(f.Args, in+in) + s.opt() + ":" + s.pick(" ", "") + s.typ(f.Type)
			if f.Def != Nil {
				r += s.pick(" ", "") + "=" + s.pick(" ", "") + s.val(f.Def)
			}
			r += s.apps(f.Dirs)
		}
		for _, v := range d.Values {
			r += s.nl(in) + s.desc(v.Desc, in) + v.Name + s.apps(v.Dirs)
		}
		r += s.nl("") + "}"
	}
	return r
}

func (s Style) Block(b SBlock, ext bool) string {
	r := ""
	if ext {
		r = "extend" + s.ws()
	}
	r += "schema" + s.unseen(4) + s.pick(" ", "") + "{"
	for _, o := range b.Ops {
		r += s.nl("  ") + o.Op + s.opt() + ":" + s.pick(" ", "") + o.Type
	}
	return r + s.nl("") + "}"
}

func (s Style) DirDef(d DirDef) string {
	r := s.desc(d.Desc, "") + "directive" + s.ws() + "@" + s.opt() + d.Name + s.args(d.Args, "  ")
	if d.Rep {
		r += s.ws() + "repeatable"
	}
	return r + s.ws() + "on" + s.ws() + s.list(d.Locs, "|", "|")
}

// Items renders every top level item of a document, in order.
func (s Style) Items(d *Doc) []string {
	var r []string
	for _, b := range d.Schema {
		r = append(r, s.Block(b, false))
	}
	for _, b := range d.SchemaExt {
		r = append(r, s.Block(b, true))
	}
	for s.yes(8) {
		r = append(r, "extend schema"+s.unseen(1))
	}
	for _, x := range d.Dirs {
		r = append(r, s.DirDef(x))
	}
	for _, x := range d.Defs {
		r = append(r, s.Def(x, false))
	}
	for _, x := range d.Exts {
		r = append(r, s.Def(x, true))
	}
	return r
}

// Join puts items into one text.
func (s Style) Join(items []string) string {
	r := s.pick("", "# head\n", "\ufeff", "\n\n")
	for _, x := range items {
		r += x + s.pick("\n", " ", "\n\n", "\r\n", "\n# between\n", "\n\n\n")
	}
	return r
}

// File is one schema file.
type File struct {
	Name string `json:"name"`
	Text string `json:"text"`
}

// Render lays a document out over n files.
func (s Style) Render(d *Doc, names []string) []File {
	items := s.Items(d)
	parts := make([][]string, len(names))
	for _, x := range items {
		i := 0
		if s.R != nil && len(names) > 1 {
			i = s.R.Intn(len(names))
		}
		parts[i] = append(parts[i], x)
	}
	var fs []File
	for i, n := range names {
		fs = append(fs, File{Name: n, Text: s.Join(parts[i])})
	}
	return fs
}
