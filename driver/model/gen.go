package model

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
)

// Gen makes random schema documents over small name pools, so that two documents overlap a lot.
type Gen struct {
	R     *rand.Rand
	Types []string // type names in use
	Small bool     // fewer members
	Big   bool     // at times many members

	fields, argNames, enums, dirNames, descs, reasons []string
}

var (
	fieldNames = []string{"a", "b", "c", "d", "id", "name"}
	argNames   = []string{"x", "y", "z", "first"}
	enumNames  = []string{"RED", "GREEN", "BLUE", "a"}
	dirNames   = []string{"da", "db", "tag", "auth"}
	kinds      = []string{"OBJECT", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "SCALAR"}
	locs       = []string{"QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION",
		"SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"}
	descs   = []string{"", "", "about", "other words", "say \"hi\"", "two\nlines", "x"}
	reasons = []string{`"old"`, `"unused"`, `"No longer supported"`}
)

// names and words that are nearly the same
var (
	nearFields = []string{"a", "A", "aa", "ab", "a1", "a10", "_a", "a_", "id", "ID", "idd", "name", "names", "Name", "on", "type", "input", "query", "extend", "deprecated", "true", "null", "reason"}
	nearArgs   = []string{"x", "X", "xx", "x1", "x11", "first", "firs", "First", "if", "reason", "input", "on", "null", "_"}
	nearEnums  = []string{"RED", "RE", "REDD", "Red", "red", "R1", "R10", "R_1", "a", "A", "on", "type", "NULL", "True", "enum"}
	nearDirs   = []string{"da", "dA", "d", "daa", "tag", "tags", "auth", "Deprecated", "deprecate", "deprecated2", "skip", "include", "specifiedBy", "on"}
	nearTypes  = []string{"A", "a", "AB", "Ab", "A1", "A10", "B", "BA", "_A", "Query", "query", "Querys", "Mutation", "Subscription", "Int", "ID", "Id", "String", "String1", "type", "interface", "Node", "Nodes"}
	nearDescs  = []string{"", " ", "about", "About", "about ", " about", "about.", "about\n", "about\nit", "about\nthat", "about\n\nit", "a\tb", "a b", "say \"hi\"", "say 'hi'", "\\n", "é", "e", "\n", "0"}
	nearReason = []string{`"old"`, `"Old"`, `"old "`, `""`, `"older"`, `"No longer supported"`, `"No longer supported."`, `"old\nway"`, `"old\nmay"`}
)

// NewGen returns a generator; its names and words are nearly the same at times.
func NewGen(r *rand.Rand, types []string) *Gen {
	g := &Gen{R: r, Types: append([]string{}, types...), Small: r.Intn(2) == 0}
	g.Big = g.coin(5)
	pool := func(plain, near []string, k int) []string {
		if g.Big {
			return numbered(plain, near[:k], 9)
		}
		if g.coin(2) {
			return plain
		}
		return g.some(near, k)
	}
	g.fields, g.argNames = pool(fieldNames, nearFields, 7), pool(argNames, nearArgs, 5)
	g.enums, g.dirNames = pool(enumNames, nearEnums, 5), pool(dirNames, nearDirs, 5)
	g.descs, g.reasons = descs, reasons
	if !g.Big {
		g.descs, g.reasons = pool(descs, nearDescs, 6), pool(reasons, nearReason, 4)
	}
	if !g.Big {
		g.Types = pool(g.Types, nearTypes, len(g.Types))
	}
	return g
}

// numbered puts names together and makes further ones.
func numbered(l, near []string, k int) []string {
	seen, r := map[string]bool{}, []string{}
	add := func(x string) {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	for _, x := range append(append([]string{}, l...), near...) {
		add(x)
	}
	for i := 0; i < k; i++ {
		add(fmt.Sprintf("%s_%d", l[i%len(l)], i+1))
	}
	return r
}

func (g *Gen) n(k int) int           { return g.R.Intn(k) }
func (g *Gen) one(l []string) string { return l[g.n(len(l))] }
func (g *Gen) coin(n int) bool       { return g.n(n) == 0 }
func (g *Gen) few() int {
	if g.Small {
		return g.size(3)
	}
	return g.size(4)
}

// size is less than k, unless this is to be big.
func (g *Gen) size(k int) int {
	if g.Big && g.coin(4) {
		return g.n(4 * k)
	}
	return g.n(k)
}

// subset of names, in random order
func (g *Gen) some(l []string, k int) []string {
	p := g.R.Perm(len(l))
	if k > len(l) {
		k = len(l)
	}
	r := []string{}
	for _, i := range p[:k] {
		r = append(r, l[i])
	}
	return r
}

func (g *Gen) TypeRef(depth int) *Type {
	if depth > 0 && g.coin(3) {
		return &Type{NN: g.coin(2), List: true, Elem: []*Type{g.TypeRef(depth - 1)}}
	}
	base := []string{"Int", "String", "Boolean", "ID", "Float"}
	n := g.one(base)
	if g.coin(3) {
		n = g.one(g.Types)
	}
	return &Type{NN: g.coin(2), Name: n, Elem: []*Type{}}
}

func (g *Gen) Value(depth int) string {
	switch g.n(9) {
	case 0:
		return fmt.Sprint(g.n(3))
	case 1:
		return fmt.Sprintf("-%d.%de3", g.n(2), g.n(3))
	case 2:
		return []string{`"s"`, `"t u"`, `""`, `"1"`, `"<nil>"`, `"a,b"`, `"null"`, `"RED"`, `"S"`, `"true"`, `"s "`}[g.n(11)]
	case 3:
		return []string{"true", "false"}[g.n(2)]
	case 4:
		return "null"
	case 5:
		return g.one(g.enums)
	case 6:
		if depth == 0 {
			return "[]"
		}
		s := "["
		for i := 0; i < g.n(3); i++ {
			if i > 0 {
				s += ","
			}
			s += g.Value(depth - 1)
		}
		return s + "]"
	case 7:
		if depth == 0 {
			return "{}"
		}
		s := "{"
		keys := g.some(g.fields, 3)
		for i := 0; i < g.n(3); i++ {
			if i > 0 {
				s += ","
			}
			s += keys[i] + ":" + g.Value(depth-1)
		}
		return s + "}"
	}
	return fmt.Sprint(g.n(10))
}

func (g *Gen) def() string {
	if g.coin(2) {
		return Nil
	}
	return g.Value(2)
}

func (g *Gen) desc() string { return g.one(g.descs) }

func (g *Gen) newArg(name string) Arg {
	return Arg{Name: name, Desc: g.desc(), Type: g.TypeRef(2), Def: g.def()}
}

func (g *Gen) args() []Arg {
	r := []Arg{}
	for _, n := range g.some(g.argNames, g.few()) {
		r = append(r, g.newArg(n))
	}
	return r
}

func (g *Gen) newApp(name string) App {
	a := App{Name: name, Args: []AppArg{}}
	for _, n := range g.some(g.argNames, g.size(3)) {
		a.Args = append(a.Args, AppArg{Name: n, Val: g.Value(1)})
	}
	return a
}

func (g *Gen) deprecated() App {
	a := App{Name: "deprecated", Args: []AppArg{}}
	if g.coin(2) {
		a.Args = append(a.Args, AppArg{Name: "reason", Val: g.one(g.reasons)})
	}
	return a
}

// apps are directive applications; the last name pool entries may repeat
func (g *Gen) apps(dep bool) []App {
	r := []App{}
	if dep && g.coin(4) {
		r = append(r, g.deprecated())
	}
	if g.coin(2) {
		return r
	}
	for i := g.few(); i > 0; i-- {
		n := g.one(g.dirNames)
		r = append(r, g.newApp(n))
	}
	g.R.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

func (g *Gen) newField(name, kind string) Field {
	f := Field{Name: name, Desc: g.desc(), Args: []Arg{}, Type: g.TypeRef(2), Def: Nil, Dirs: g.apps(true)}
	if kind == "INPUT_OBJECT" {
		f.Def = g.def()
	} else {
		f.Args = g.args()
	}
	return f
}

func (g *Gen) newVal(name string) Val {
	v := Val{Name: name, Desc: g.desc(), Dirs: []App{}}
	if g.coin(3) {
		v.Dirs = append(v.Dirs, g.deprecated())
	}
	if g.coin(4) {
		v.Dirs = append(v.Dirs, g.newApp("da"))
	}
	return v
}

func blank(kind, name string) Def {
	return Def{Kind: kind, Name: name, Dirs: []App{}, Ifaces: []string{}, Fields: []Field{}, Members: []string{}, Values: []Val{}}
}

// NewDef makes a type definition or, with ext, a non-empty extension that does not use the names in taken.
func (g *Gen) NewDef(kind, name string, ext bool, taken map[string]bool) Def {
	for {
		d := blank(kind, name)
		free := func(l []string) []string {
			r := []string{}
			for _, x := range l {
				if !taken[x] {
					r = append(r, x)
				}
			}
			return r
		}
		if !ext {
			d.Desc = g.desc()
		}
		switch kind {
		case "OBJECT", "INTERFACE", "INPUT_OBJECT":
			for _, n := range g.some(free(g.fields), 1+g.few()) {
				d.Fields = append(d.Fields, g.newField(n, kind))
			}
			d.Dirs = g.apps(false)
			if kind == "OBJECT" && g.coin(2) || kind == "INTERFACE" && !ext && g.coin(4) {
				d.Ifaces = g.some(free(g.Types), g.size(3))
			}
		case "UNION":
			d.Members = g.some(free(g.Types), 1+g.size(3))
		case "ENUM":
			for _, n := range g.some(free(g.enums), 1+g.few()) {
				d.Values = append(d.Values, g.newVal(n))
			}
		case "SCALAR":
			if ext || g.coin(4) {
				d.Dirs = []App{g.newApp("da")}
			}
		}
		if kind != "SCALAR" && g.coin(8) {
			d.Dirs = append(d.Dirs, g.newApp("tag"))
		}
		if !ext || len(d.Dirs)+len(d.Ifaces)+len(d.Fields)+len(d.Members)+len(d.Values) > 0 {
			return d
		}
		if kind == "INPUT_OBJECT" || kind == "ENUM" || kind == "UNION" || kind == "INTERFACE" || kind == "OBJECT" {
			d.Dirs = []App{g.newApp("db")}
			return d
		}
	}
}

func taken(ds ...Def) map[string]bool {
	m := map[string]bool{}
	for _, d := range ds {
		for _, f := range d.Fields {
			m[f.Name] = true
		}
		for _, v := range d.Values {
			m[v.Name] = true
		}
		for _, x := range d.Members {
			m[x] = true
		}
		for _, x := range d.Ifaces {
			m[x] = true
		}
	}
	return m
}

func (g *Gen) newDirDef(name string) DirDef {
	return DirDef{Name: name, Desc: g.desc(), Args: g.args(), Locs: g.some(locs, 1+g.size(3)), Rep: g.coin(2)}
}

var opNames = []string{"query", "mutation", "subscription"}

// Doc makes a document with about n types. extShare is the chance (in percent) that a type gets extension blocks.
func (g *Gen) Doc(n, extShare int) *Doc {
	d := &Doc{Schema: []SBlock{}, SchemaExt: []SBlock{}, Dirs: []DirDef{}, Defs: []Def{}, Exts: []Def{}}
	kindOf := func(name string) string { return g.one(kinds) }
	for _, name := range g.some(g.Types, n) {
		k := kindOf(name)
		var all []Def
		if g.n(100) >= extShare/2 {
			x := g.NewDef(k, name, false, nil)
			d.Defs = append(d.Defs, x)
			all = append(all, x)
		}
		for g.n(100) < extShare {
			x := g.NewDef(k, name, true, taken(all...))
			d.Exts = append(d.Exts, x)
			all = append(all, x)
		}
	}
	g.R.Shuffle(len(d.Exts), func(i, j int) { d.Exts[i], d.Exts[j] = d.Exts[j], d.Exts[i] })
	for _, name := range g.some(g.dirNames, g.few()) {
		d.Dirs = append(d.Dirs, g.newDirDef(name))
	}
	ops := g.some(opNames, g.n(4))
	inExt := g.coin(3)
	for i, o := range ops {
		op := Op{Op: o, Type: g.one(append([]string{"Query", "Mutation"}, g.Types...))}
		switch {
		case inExt && i > 0 && len(d.SchemaExt) > 0 && g.coin(2):
			d.SchemaExt[0].Ops = append(d.SchemaExt[0].Ops, op)
		case inExt && i > 0 || len(d.SchemaExt) > 0:
			d.SchemaExt = append(d.SchemaExt, SBlock{Ops: []Op{op}})
		case i == 0 && g.coin(5):
			d.SchemaExt = append(d.SchemaExt, SBlock{Ops: []Op{op}})
		case len(d.Schema) == 0:
			d.Schema = append(d.Schema, SBlock{Ops: []Op{op}})
		default:
			d.Schema[0].Ops = append(d.Schema[0].Ops, op)
		}
	}
	return d
}

// Clone copies a document.
func Clone(d *Doc) *Doc {
	b, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	r := &Doc{}
	if err := json.Unmarshal(b, r); err != nil {
		panic(err)
	}
	return r
}

// Classes of edits.
const (
	Additive  = 1
	Dangerous = 2
	Breaking  = 4
	Neutral   = 8
	AnyEdit   = 15
)

type edit struct {
	class int
	name  string
	do    func(g *Gen, d *Doc) bool
}

func (g *Gen) anyDef(d *Doc, ok func(*Def) bool) *Def {
	var c []*Def
	for i := range d.Defs {
		if ok(&d.Defs[i]) {
			c = append(c, &d.Defs[i])
		}
	}
	for i := range d.Exts {
		if ok(&d.Exts[i]) {
			c = append(c, &d.Exts[i])
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[g.n(len(c))]
}

func (d *Doc) takenOf(name string) map[string]bool {
	var l []Def
	for _, x := range append(append([]Def{}, d.Defs...), d.Exts...) {
		if x.Name == name {
			l = append(l, x)
		}
	}
	return taken(l...)
}

func hasFields(x *Def) bool   { return len(x.Fields) > 0 }
func outFields(x *Def) bool   { return len(x.Fields) > 0 && x.Kind != "INPUT_OBJECT" }
func inputFields(x *Def) bool { return len(x.Fields) > 0 && x.Kind == "INPUT_OBJECT" }

func (g *Gen) field(d *Doc, ok func(*Def) bool) (*Def, *Field) {
	x := g.anyDef(d, ok)
	if x == nil {
		return nil, nil
	}
	return x, &x.Fields[g.n(len(x.Fields))]
}

func (g *Gen) fieldWith(d *Doc, ok func(*Def, *Field) bool) (*Def, *Field) {
	for i := 0; i < 12; i++ {
		x, f := g.field(d, hasFields)
		if x == nil {
			return nil, nil
		}
		if ok(x, f) {
			return x, f
		}
	}
	return nil, nil
}

// weaken widens, strengthen narrows a type.
func (g *Gen) weaken(t *Type) bool {
	if t.NN && (!t.List || g.coin(2)) {
		t.NN = false
		return true
	}
	if t.List {
		return g.weaken(t.Elem[0])
	}
	return false
}
func (g *Gen) strengthen(t *Type) bool {
	if !t.NN && (!t.List || g.coin(2)) {
		t.NN = true
		return true
	}
	if t.List {
		return g.strengthen(t.Elem[0])
	}
	return false
}

func freeName(pool []string, used func(string) bool, g *Gen) string {
	for _, n := range g.some(pool, len(pool)) {
		if !used(n) {
			return n
		}
	}
	return ""
}

func dropDep(l []App) ([]App, bool) {
	r, found := []App{}, false
	for _, a := range l {
		if a.Name == "deprecated" {
			found = true
			continue
		}
		r = append(r, a)
	}
	return r, found
}

func findDep(l []App) int {
	for i, a := range l {
		if a.Name == "deprecated" {
			return i
		}
	}
	return -1
}

func swapRemove[T any](g *Gen, l []T, i int) []T { return append(append([]T{}, l[:i]...), l[i+1:]...) }

func insert[T any](g *Gen, l []T, x T) []T {
	i := g.n(len(l) + 1)
	r := append([]T{}, l[:i]...)
	r = append(r, x)
	return append(r, l[i:]...)
}

func (g *Gen) nonEmptyAfter(x *Def, d *Doc) bool { // may one member be removed and the block stay legal?
	n := len(x.Dirs) + len(x.Ifaces) + len(x.Fields) + len(x.Members) + len(x.Values)
	for i := range d.Defs {
		if x == &d.Defs[i] {
			return true
		}
	}
	return n > 1
}

func lastDirs(g *Gen, d *Doc) (owner string, l *[]App) {
	x := g.anyDef(d, func(x *Def) bool { return x.Kind == "OBJECT" || x.Kind == "INTERFACE" || x.Kind == "INPUT_OBJECT" })
	if x == nil {
		return "", nil
	}
	if len(x.Fields) > 0 && (x.Kind == "INPUT_OBJECT" || g.coin(2)) {
		f := &x.Fields[g.n(len(x.Fields))]
		return x.Name + "." + f.Name, &f.Dirs
	}
	if x.Kind == "INPUT_OBJECT" {
		return "", nil
	}
	return x.Name, &x.Dirs
}

var edits []edit

func init() {
	add := func(c int, n string, f func(g *Gen, d *Doc) bool) { edits = append(edits, edit{c, n, f}) }

	add(Additive, "AddType", func(g *Gen, d *Doc) bool {
		n := freeName(g.Types, func(s string) bool { return len(d.defsNamed(s)) > 0 }, g)
		if n == "" {
			return false
		}
		d.Defs = insert(g, d.Defs, g.NewDef(g.one(kinds), n, false, nil))
		return true
	})
	add(Additive, "AddExtension", func(g *Gen, d *Doc) bool {
		n := freeName(g.Types, func(s string) bool {
			for _, e := range d.Exts {
				if e.Name == s {
					return true
				}
			}
			return false
		}, g)
		if n == "" {
			return false
		}
		k := g.one(kinds)
		for _, x := range d.defsNamed(n) {
			k = x.Kind
		}
		d.Exts = insert(g, d.Exts, g.NewDef(k, n, true, d.takenOf(n)))
		return true
	})
	add(Additive, "AddField", func(g *Gen, d *Doc) bool {
		x := g.anyDef(d, outFields)
		if x == nil {
			return false
		}
		t := d.takenOf(x.Name)
		n := freeName(g.fields, func(s string) bool { return t[s] }, g)
		if n == "" {
			return false
		}
		x.Fields = insert(g, x.Fields, g.newField(n, x.Kind))
		return true
	})
	add(Additive, "StrengthenField", func(g *Gen, d *Doc) bool {
		_, f := g.fieldWith(d, func(x *Def, f *Field) bool { return x.Kind != "INPUT_OBJECT" })
		return f != nil && g.strengthen(f.Type)
	})
	add(Additive, "WeakenArg", func(g *Gen, d *Doc) bool {
		_, f := g.fieldWith(d, func(x *Def, f *Field) bool { return len(f.Args) > 0 })
		return f != nil && g.weaken(f.Args[g.n(len(f.Args))].Type)
	})
	add(Additive, "WeakenInput", func(g *Gen, d *Doc) bool {
		_, f := g.fieldWith(d, func(x *Def, f *Field) bool { return x.Kind == "INPUT_OBJECT" })
		return f != nil && g.weaken(f.Type)
	})
	add(Additive, "WeakenDirArg", func(g *Gen, d *Doc) bool {
		for i := range d.Dirs {
			if len(d.Dirs[i].Args) > 0 && g.weaken(d.Dirs[i].Args[0].Type) {
				return true
			}
		}
		return false
	})
	add(Additive, "AddDirective", func(g *Gen, d *Doc) bool {
		n := freeName(g.dirNames, func(s string) bool { return d.dirNamed(s) != nil }, g)
		if n == "" {
			return false
		}
		d.Dirs = insert(g, d.Dirs, g.newDirDef(n))
		return true
	})
	add(Additive, "AddLocation", func(g *Gen, d *Doc) bool {
		if len(d.Dirs) == 0 {
			return false
		}
		x := &d.Dirs[g.n(len(d.Dirs))]
		n := freeName(locs, func(s string) bool { return contains(x.Locs, s) }, g)
		x.Locs = insert(g, x.Locs, n)
		return true
	})
	add(Additive, "AddRepeatable", func(g *Gen, d *Doc) bool {
		for i := range d.Dirs {
			if !d.Dirs[i].Rep {
				d.Dirs[i].Rep = true
				return true
			}
		}
		return false
	})
	add(Additive, "AddOptionalDirectiveArg", func(g *Gen, d *Doc) bool { return g.addDirArg(d, false) })
	add(Breaking, "AddRequiredDirectiveArg", func(g *Gen, d *Doc) bool { return g.addDirArg(d, true) })
	add(Additive, "AddRoot", func(g *Gen, d *Doc) bool {
		used := map[string]bool{}
		for _, l := range [][]SBlock{d.Schema, d.SchemaExt} {
			for _, b := range l {
				for _, o := range b.Ops {
					used[o.Op] = true
				}
			}
		}
		o := freeName(opNames, func(s string) bool { return used[s] }, g)
		if o == "" {
			return false
		}
		op := Op{Op: o, Type: g.one(g.Types)}
		switch {
		case len(d.SchemaExt) > 0 && g.coin(2):
			d.SchemaExt[0].Ops = insert(g, d.SchemaExt[0].Ops, op)
		case len(d.Schema) > 0 && g.coin(2):
			d.Schema[0].Ops = insert(g, d.Schema[0].Ops, op)
		default:
			d.SchemaExt = insert(g, d.SchemaExt, SBlock{Ops: []Op{op}})
		}
		return true
	})
	add(Additive, "AddApp", func(g *Gen, d *Doc) bool {
		_, l := lastDirs(g, d)
		if l == nil {
			return false
		}
		n := freeName(g.dirNames, func(s string) bool {
			for _, a := range *l {
				if a.Name == s {
					return true
				}
			}
			return false
		}, g)
		if n == "" {
			return false
		}
		*l = insert(g, *l, g.newApp(n))
		return true
	})
	add(Additive, "AddAppArg", func(g *Gen, d *Doc) bool {
		_, l := lastDirs(g, d)
		if l == nil || len(*l) == 0 {
			return false
		}
		a := &(*l)[g.n(len(*l))]
		c := 0
		for _, b := range *l {
			if b.Name == a.Name {
				c++
			}
		}
		n := freeName(g.argNames, func(s string) bool { return hasAppArg(*a, s) }, g)
		if a.Name == "deprecated" || c > 1 || n == "" {
			return false
		}
		a.Args = insert(g, a.Args, AppArg{Name: n, Val: g.Value(1)})
		return true
	})
	add(Additive, "ChangeDesc", func(g *Gen, d *Doc) bool {
		s := g.desc()
		switch g.n(6) {
		case 0:
			if len(d.Defs) > 0 {
				d.Defs[g.n(len(d.Defs))].Desc = s
				return true
			}
		case 1:
			if _, f := g.field(d, hasFields); f != nil {
				f.Desc = s
				return true
			}
		case 2:
			if _, f := g.field(d, outFields); f != nil && len(f.Args) > 0 {
				f.Args[g.n(len(f.Args))].Desc = s
				return true
			}
		case 3:
			if x := g.anyDef(d, func(x *Def) bool { return len(x.Values) > 0 }); x != nil {
				x.Values[g.n(len(x.Values))].Desc = s
				return true
			}
		case 4:
			if len(d.Dirs) > 0 {
				d.Dirs[g.n(len(d.Dirs))].Desc = s
				return true
			}
		case 5:
			if len(d.Dirs) > 0 && len(d.Dirs[0].Args) > 0 {
				d.Dirs[0].Args[0].Desc = s
				return true
			}
		}
		return false
	})
	add(Additive, "ChangeReason", func(g *Gen, d *Doc) bool {
		ch := func(l []App) bool {
			i := findDep(l)
			if i < 0 || len(l[i].Args) == 0 {
				return false
			}
			l[i].Args[0].Val = g.one(g.reasons)
			return true
		}
		if g.coin(2) {
			if x := g.anyDef(d, func(x *Def) bool { return len(x.Values) > 0 }); x != nil {
				return ch(x.Values[g.n(len(x.Values))].Dirs)
			}
			return false
		}
		_, f := g.fieldWith(d, func(x *Def, f *Field) bool { return findDep(f.Dirs) >= 0 })
		return f != nil && ch(f.Dirs)
	})

	add(Dangerous, "ChangeArgDefault", func(g *Gen, d *Doc) bool {
		_, f := g.fieldWith(d, func(x *Def, f *Field) bool { return len(f.Args) > 0 })
		if f == nil {
			return false
		}
		a := &f.Args[g.n(len(f.Args))]
		return g.setDefault(&a.Def, a.Type)
	})
	add(Dangerous, "ChangeInputDefault", func(g *Gen, d *Doc) bool {
		_, f := g.field(d, inputFields)
		return f != nil && g.setDefault(&f.Def, f.Type)
	})
	add(Dangerous, "ChangeDirArgDefault", func(g *Gen, d *Doc) bool {
		if len(d.Dirs) == 0 || len(d.Dirs[0].Args) == 0 {
			return false
		}
		a := &d.Dirs[0].Args[g.n(len(d.Dirs[0].Args))]
		return g.setDefault(&a.Def, a.Type)
	})
	add(Dangerous, "Deprecate", func(g *Gen, d *Doc) bool {
		if g.coin(2) {
			if x := g.anyDef(d, func(x *Def) bool { return len(x.Values) > 0 }); x != nil {
				v := &x.Values[g.n(len(x.Values))]
				if findDep(v.Dirs) >= 0 {
					v.Dirs, _ = dropDep(v.Dirs)
				} else {
					v.Dirs = insert(g, v.Dirs, g.deprecated())
				}
				return true
			}
		}
		_, f := g.field(d, hasFields)
		if f == nil {
			return false
		}
		if findDep(f.Dirs) >= 0 {
			f.Dirs, _ = dropDep(f.Dirs)
		} else {
			f.Dirs = insert(g, f.Dirs, g.deprecated())
		}
		return true
	})
	add(Dangerous, "AddEnumValue", func(g *Gen, d *Doc) bool {
		x := g.anyDef(d, func(x *Def) bool { return len(x.Values) > 0 })
		if x == nil {
			return false
		}
		t := d.takenOf(x.Name)
		n := freeName(g.enums, func(s string) bool { return t[s] }, g)
		if n == "" {
			return false
		}
		x.Values = insert(g, x.Values, g.newVal(n))
		return true
	})
	add(Dangerous, "AddMember", func(g *Gen, d *Doc) bool {
		x := g.anyDef(d, func(x *Def) bool { return len(x.Members) > 0 })
		if x == nil {
			return false
		}
		t := d.takenOf(x.Name)
		n := freeName(g.Types, func(s string) bool { return t[s] }, g)
		if n == "" {
			return false
		}
		x.Members = insert(g, x.Members, n)
		return true
	})
	add(Dangerous, "AddInterface", func(g *Gen, d *Doc) bool {
		x := g.anyDef(d, func(x *Def) bool { return x.Kind == "OBJECT" })
		if x == nil {
			return false
		}
		t := d.takenOf(x.Name)
		n := freeName(g.Types, func(s string) bool { return t[s] }, g)
		if n == "" {
			return false
		}
		x.Ifaces = insert(g, x.Ifaces, n)
		return true
	})
	add(Dangerous, "AddOptionalArg", func(g *Gen, d *Doc) bool { return g.addArg(d, false) })
	add(Breaking, "AddRequiredArg", func(g *Gen, d *Doc) bool { return g.addArg(d, true) })
	add(Dangerous, "AddOptionalInput", func(g *Gen, d *Doc) bool { return g.addInput(d, false) })
	add(Breaking, "AddRequiredInput", func(g *Gen, d *Doc) bool { return g.addInput(d, true) })
	add(Dangerous, "ChangeApp", func(g *Gen, d *Doc) bool {
		_, l := lastDirs(g, d)
		if l == nil || len(*l) == 0 {
			return false
		}
		i := g.n(len(*l))
		if (*l)[i].Name == "deprecated" {
			return false
		}
		a := &(*l)[i]
		if len(a.Args) > 0 && g.coin(2) {
			j := g.n(len(a.Args))
			if g.coin(2) {
				a.Args = swapRemove(g, a.Args, j)
			} else {
				a.Args[j].Val = g.Value(1)
			}
			return true
		}
		if len(*l) > 1 {
			*l = swapRemove(g, *l, i)
			return true
		}
		return false
	})

	add(Breaking, "RemoveType", func(g *Gen, d *Doc) bool {
		if len(d.Defs) == 0 {
			return false
		}
		d.Defs = swapRemove(g, d.Defs, g.n(len(d.Defs)))
		return true
	})
	add(Breaking, "RemoveExtension", func(g *Gen, d *Doc) bool {
		if len(d.Exts) == 0 {
			return false
		}
		d.Exts = swapRemove(g, d.Exts, g.n(len(d.Exts)))
		return true
	})
	add(Breaking, "ChangeKind", func(g *Gen, d *Doc) bool {
		if len(d.Defs) == 0 {
			return false
		}
		i := g.n(len(d.Defs))
		n := d.Defs[i].Name
		for _, e := range d.Exts {
			if e.Name == n {
				return false
			}
		}
		desc := d.Defs[i].Desc
		d.Defs[i] = g.NewDef(g.one(kinds), n, false, nil)
		if g.coin(2) {
			d.Defs[i].Desc = desc
		}
		return true
	})
	add(Breaking, "RemoveField", func(g *Gen, d *Doc) bool {
		x, _ := g.field(d, hasFields)
		if x == nil || !g.nonEmptyAfter(x, d) {
			return false
		}
		x.Fields = swapRemove(g, x.Fields, g.n(len(x.Fields)))
		return true
	})
	add(Breaking, "RenameField", func(g *Gen, d *Doc) bool {
		x, f := g.field(d, hasFields)
		if x == nil {
			return false
		}
		t := d.takenOf(x.Name)
		n := freeName(g.fields, func(s string) bool { return t[s] }, g)
		if n == "" {
			return false
		}
		f.Name = n
		return true
	})
	add(Breaking, "ChangeFieldType", func(g *Gen, d *Doc) bool {
		_, f := g.field(d, hasFields)
		if f == nil {
			return false
		}
		f.Type = g.TypeRef(3)
		return true
	})
	add(Breaking, "WeakenField", func(g *Gen, d *Doc) bool {
		_, f := g.field(d, outFields)
		return f != nil && g.weaken(f.Type)
	})
	add(Breaking, "StrengthenInput", func(g *Gen, d *Doc) bool {
		_, f := g.field(d, inputFields)
		return f != nil && g.strengthen(f.Type)
	})
	add(Breaking, "ChangeArg", func(g *Gen, d *Doc) bool {
		_, f := g.fieldWith(d, func(x *Def, f *Field) bool { return len(f.Args) > 0 })
		if f == nil {
			return false
		}
		i := g.n(len(f.Args))
		switch g.n(3) {
		case 0:
			f.Args = swapRemove(g, f.Args, i)
		case 1:
			f.Args[i].Type = g.TypeRef(3)
		default:
			return g.strengthen(f.Args[i].Type)
		}
		return true
	})
	add(Breaking, "DropDefault", func(g *Gen, d *Doc) bool {
		x, f := g.field(d, hasFields)
		if f == nil {
			return false
		}
		if x.Kind == "INPUT_OBJECT" {
			f.Def = Nil
			return true
		}
		if len(f.Args) == 0 {
			return false
		}
		f.Args[g.n(len(f.Args))].Def = Nil
		return true
	})
	add(Breaking, "RemoveEnumValue", func(g *Gen, d *Doc) bool {
		x := g.anyDef(d, func(x *Def) bool { return len(x.Values) > 0 })
		if x == nil || !g.nonEmptyAfter(x, d) {
			return false
		}
		x.Values = swapRemove(g, x.Values, g.n(len(x.Values)))
		return true
	})
	add(Breaking, "RemoveMember", func(g *Gen, d *Doc) bool {
		x := g.anyDef(d, func(x *Def) bool { return len(x.Members) > 0 })
		if x == nil || !g.nonEmptyAfter(x, d) {
			return false
		}
		x.Members = swapRemove(g, x.Members, g.n(len(x.Members)))
		return true
	})
	add(Breaking, "RemoveInterface", func(g *Gen, d *Doc) bool {
		x := g.anyDef(d, func(x *Def) bool { return len(x.Ifaces) > 0 })
		if x == nil || !g.nonEmptyAfter(x, d) {
			return false
		}
		x.Ifaces = swapRemove(g, x.Ifaces, g.n(len(x.Ifaces)))
		return true
	})
	add(Breaking, "ChangeDirective", func(g *Gen, d *Doc) bool {
		if len(d.Dirs) == 0 {
			return false
		}
		i := g.n(len(d.Dirs))
		x := &d.Dirs[i]
		switch g.n(6) {
		case 0:
			d.Dirs = swapRemove(g, d.Dirs, i)
		case 1:
			x.Rep = false
		case 2:
			if len(x.Locs) < 2 {
				return false
			}
			x.Locs = swapRemove(g, x.Locs, g.n(len(x.Locs)))
		default:
			if len(x.Args) == 0 {
				return false
			}
			j := g.n(len(x.Args))
			switch g.n(3) {
			case 0:
				x.Args = swapRemove(g, x.Args, j)
			case 1:
				x.Args[j].Type = g.TypeRef(3)
			default:
				return g.strengthen(x.Args[j].Type)
			}
		}
		return true
	})
	add(Breaking, "ChangeRoot", func(g *Gen, d *Doc) bool {
		l := &d.Schema
		if len(d.SchemaExt) > 0 && g.coin(2) {
			l = &d.SchemaExt
		}
		if len(*l) == 0 {
			return false
		}
		b := &(*l)[g.n(len(*l))]
		i := g.n(len(b.Ops))
		switch {
		case g.coin(2):
			b.Ops[i].Type = g.one(g.Types)
		case len(b.Ops) > 1:
			b.Ops = swapRemove(g, b.Ops, i)
		default:
			*l = (*l)[1:]
		}
		return true
	})
	add(Breaking, "MoveToExtension", func(g *Gen, d *Doc) bool {
		if len(d.Defs) == 0 {
			return false
		}
		x := &d.Defs[g.n(len(d.Defs))]
		if len(x.Fields) < 2 {
			return false
		}
		e := blank(x.Kind, x.Name)
		e.Fields = append(e.Fields, x.Fields[0])
		x.Fields = append([]Field{}, x.Fields[1:]...)
		d.Exts = insert(g, d.Exts, e)
		return true
	})
	add(Additive, "TweakDesc", func(g *Gen, d *Doc) bool {
		var l []*string
		for _, ds := range [][]Def{d.Defs, d.Exts} {
			for i := range ds {
				x := &ds[i]
				if x.Desc != "" {
					l = append(l, &x.Desc)
				}
				for j := range x.Fields {
					l = append(l, &x.Fields[j].Desc)
					for k := range x.Fields[j].Args {
						l = append(l, &x.Fields[j].Args[k].Desc)
					}
				}
				for j := range x.Values {
					l = append(l, &x.Values[j].Desc)
				}
			}
		}
		for i := range d.Dirs {
			l = append(l, &d.Dirs[i].Desc)
			for k := range d.Dirs[i].Args {
				l = append(l, &d.Dirs[i].Args[k].Desc)
			}
		}
		if len(l) == 0 {
			return false
		}
		x := l[g.n(len(l))]
		*x = g.tweakWords(*x)
		return true
	})
	add(Dangerous, "TweakValue", func(g *Gen, d *Doc) bool {
		var l []*string
		def := func(s *string) {
			if *s != Nil {
				l = append(l, s)
			}
		}
		apps := func(as []App) {
			for i := range as {
				for j := range as[i].Args {
					if as[i].Name != "deprecated" {
						l = append(l, &as[i].Args[j].Val)
					}
				}
			}
		}
		args := func(as []Arg) {
			for i := range as {
				def(&as[i].Def)
			}
		}
		for _, ds := range [][]Def{d.Defs, d.Exts} {
			for i := range ds {
				apps(ds[i].Dirs)
				for j := range ds[i].Fields {
					f := &ds[i].Fields[j]
					def(&f.Def)
					args(f.Args)
					apps(f.Dirs)
				}
			}
		}
		for i := range d.Dirs {
			args(d.Dirs[i].Args)
		}
		if len(l) == 0 {
			return false
		}
		x := l[g.n(len(l))]
		y := g.tweakValue(*x)
		if y == *x {
			return false
		}
		*x = y
		return true
	})
	add(Breaking, "TweakTypeName", func(g *Gen, d *Doc) bool {
		var l []*Type
		args := func(as []Arg) {
			for i := range as {
				l = append(l, as[i].Type)
			}
		}
		for _, ds := range [][]Def{d.Defs, d.Exts} {
			for i := range ds {
				for j := range ds[i].Fields {
					l = append(l, ds[i].Fields[j].Type)
					args(ds[i].Fields[j].Args)
				}
			}
		}
		for i := range d.Dirs {
			args(d.Dirs[i].Args)
		}
		if len(l) == 0 {
			return false
		}
		t := l[g.n(len(l))]
		switch {
		case g.coin(8): // make or unmake a list, keeping the name
			c := *t
			if t.List {
				*t = *c.Elem[0]
				return true
			}
			*t = Type{NN: c.NN, List: true, Elem: []*Type{{NN: g.coin(2), Name: c.Name, Elem: []*Type{}}}}
			return true
		}
		for t.List {
			t = t.Elem[0]
		}
		t.Name = g.tweakName(t.Name)
		return true
	})
	add(Breaking, "TweakName", func(g *Gen, d *Doc) bool {
		ds := [][]Def{d.Defs, d.Exts}[g.n(2)]
		if len(ds) == 0 {
			return false
		}
		x := &ds[g.n(len(ds))]
		t := d.takenOf(x.Name)
		to := func(s *string) bool {
			n := g.tweakName(*s)
			if t[n] {
				return false
			}
			*s = n
			return true
		}
		switch g.n(5) {
		case 0:
			if len(x.Members) > 0 {
				return to(&x.Members[g.n(len(x.Members))])
			}
			if len(x.Ifaces) > 0 {
				return to(&x.Ifaces[g.n(len(x.Ifaces))])
			}
		case 1:
			if len(x.Values) > 0 {
				return to(&x.Values[g.n(len(x.Values))].Name)
			}
		case 2:
			if len(x.Dirs) > 0 {
				a := &x.Dirs[g.n(len(x.Dirs))]
				if a.Name == "deprecated" {
					return false
				}
				a.Name = g.tweakName(a.Name)
				return a.Name != "deprecated"
			}
		case 3:
			if len(x.Fields) > 0 {
				f := &x.Fields[g.n(len(x.Fields))]
				if len(f.Args) == 0 {
					return false
				}
				i := g.n(len(f.Args))
				n := g.tweakName(f.Args[i].Name)
				if hasArg(f.Args, n) {
					return false
				}
				f.Args[i].Name = n
				return true
			}
		}
		if len(x.Fields) > 0 {
			return to(&x.Fields[g.n(len(x.Fields))].Name)
		}
		return false
	})
	add(Neutral, "Rearrange", func(g *Gen, d *Doc) bool {
		*d = *g.Rearrange(d)
		return true
	})
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func hasAppArg(a App, n string) bool {
	for _, x := range a.Args {
		if x.Name == n {
			return true
		}
	}
	return false
}

func (d *Doc) defsNamed(n string) []Def {
	var r []Def
	for _, l := range [][]Def{d.Defs, d.Exts} {
		for _, x := range l {
			if x.Name == n {
				r = append(r, x)
			}
		}
	}
	return r
}

func (d *Doc) dirNamed(n string) *DirDef {
	for i := range d.Dirs {
		if d.Dirs[i].Name == n {
			return &d.Dirs[i]
		}
	}
	return nil
}

func (g *Gen) setDefault(def *string, t *Type) bool {
	if !t.NN && g.coin(4) {
		*def = Nil
		return true
	}
	*def = g.Value(2)
	return true
}

func (g *Gen) addDirArg(d *Doc, required bool) bool {
	if len(d.Dirs) == 0 {
		return false
	}
	x := &d.Dirs[g.n(len(d.Dirs))]
	n := freeName(g.argNames, func(s string) bool { return hasArg(x.Args, s) }, g)
	if n == "" {
		return false
	}
	a := g.newArg(n)
	a.Type.NN = required
	x.Args = insert(g, x.Args, a)
	return true
}

func hasArg(l []Arg, n string) bool {
	for _, a := range l {
		if a.Name == n {
			return true
		}
	}
	return false
}

func (g *Gen) addArg(d *Doc, required bool) bool {
	_, f := g.field(d, outFields)
	if f == nil {
		return false
	}
	n := freeName(g.argNames, func(s string) bool { return hasArg(f.Args, s) }, g)
	if n == "" {
		return false
	}
	a := g.newArg(n)
	a.Type.NN = required
	f.Args = insert(g, f.Args, a)
	return true
}

func (g *Gen) addInput(d *Doc, required bool) bool {
	x, _ := g.field(d, inputFields)
	if x == nil {
		return false
	}
	t := d.takenOf(x.Name)
	n := freeName(g.fields, func(s string) bool { return t[s] }, g)
	if n == "" {
		return false
	}
	f := g.newField(n, x.Kind)
	f.Type.NN = required
	x.Fields = insert(g, x.Fields, f)
	return true
}

// Mutate applies up to n random edits of the given classes to a copy and returns the names of those applied.
func (g *Gen) Mutate(d *Doc, n, classes int) (*Doc, []string) {
	r := Clone(d)
	names := []string{}
	for tries := 0; len(names) < n && tries < 40*n; tries++ {
		e := edits[g.n(len(edits))]
		if e.class&classes == 0 {
			continue
		}
		if e.do(g, r) {
			names = append(names, e.name)
		}
	}
	return r, names
}

func shuffled[T any](g *Gen, l []T) []T {
	r := append([]T{}, l...)
	g.R.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

// Rearrange writes everything in a different order and divides extension blocks differently.
func (g *Gen) Rearrange(d *Doc) *Doc {
	r := Clone(d)
	args := func(l []Arg) []Arg { return shuffled(g, l) }
	apps := func(l []App) []App {
		l = shuffled(g, l)
		for i := range l {
			l[i].Args = shuffled(g, l[i].Args)
		}
		return l
	}
	inner := func(x *Def) {
		x.Dirs, x.Ifaces, x.Members = apps(x.Dirs), shuffled(g, x.Ifaces), shuffled(g, x.Members)
		x.Fields, x.Values = shuffled(g, x.Fields), shuffled(g, x.Values)
		for i := range x.Fields {
			x.Fields[i].Args, x.Fields[i].Dirs = args(x.Fields[i].Args), apps(x.Fields[i].Dirs)
		}
		for i := range x.Values {
			x.Values[i].Dirs = apps(x.Values[i].Dirs)
		}
	}
	for i := range r.Defs {
		inner(&r.Defs[i])
	}
	r.Defs = shuffled(g, r.Defs)
	// extensions: merge per type, then divide again
	merged := map[string]*Def{}
	var names []string
	for _, e := range r.Exts {
		m := merged[e.Name]
		if m == nil {
			b := blank(e.Kind, e.Name)
			m = &b
			merged[e.Name] = m
			names = append(names, e.Name)
		}
		m.Dirs, m.Ifaces, m.Members = append(m.Dirs, e.Dirs...), append(m.Ifaces, e.Ifaces...), append(m.Members, e.Members...)
		m.Fields, m.Values = append(m.Fields, e.Fields...), append(m.Values, e.Values...)
	}
	r.Exts = []Def{}
	for _, n := range names {
		m := merged[n]
		inner(m)
		for {
			cut := func(k int) int { return g.n(k + 1) }
			if g.coin(3) {
				cut = func(k int) int { return k }
			}
			b := blank(m.Kind, m.Name)
			a, i, f, mm, v := cut(len(m.Dirs)), cut(len(m.Ifaces)), cut(len(m.Fields)), cut(len(m.Members)), cut(len(m.Values))
			if m.Kind == "INTERFACE" {
				i = 0
			}
			if a+i+f+mm+v == 0 {
				continue
			}
			b.Dirs, b.Ifaces, b.Fields, b.Members, b.Values = m.Dirs[:a], m.Ifaces[:i], m.Fields[:f], m.Members[:mm], m.Values[:v]
			m.Dirs, m.Ifaces, m.Fields, m.Members, m.Values = m.Dirs[a:], m.Ifaces[i:], m.Fields[f:], m.Members[mm:], m.Values[v:]
			r.Exts = append(r.Exts, *CloneDef(&b))
			if len(m.Dirs)+len(m.Ifaces)+len(m.Fields)+len(m.Members)+len(m.Values) == 0 {
				break
			}
		}
	}
	r.Exts = shuffled(g, r.Exts)
	for i := range r.Dirs {
		r.Dirs[i].Args, r.Dirs[i].Locs = args(r.Dirs[i].Args), shuffled(g, r.Dirs[i].Locs)
	}
	r.Dirs = shuffled(g, r.Dirs)
	for i := range r.Schema {
		r.Schema[i].Ops = shuffled(g, r.Schema[i].Ops)
	}
	var ops []Op
	for _, b := range r.SchemaExt {
		ops = append(ops, b.Ops...)
	}
	ops = shuffled(g, ops)
	r.SchemaExt = []SBlock{}
	for len(ops) > 0 {
		k := 1 + g.n(len(ops))
		r.SchemaExt = append(r.SchemaExt, SBlock{Ops: append([]Op{}, ops[:k]...)})
		ops = ops[k:]
	}
	return r
}

// CloneDef copies a definition.
func CloneDef(d *Def) *Def {
	b, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	r := &Def{}
	if err := json.Unmarshal(b, r); err != nil {
		panic(err)
	}
	return r
}

// tweakName makes a name that is nearly the same.
func (g *Gen) tweakName(n string) string {
	for {
		m := n
		i := g.n(len(n))
		switch g.n(6) {
		case 0:
			m = n + g.one([]string{"s", "1", "0", "_", "A"})
		case 1:
			m = g.one([]string{"x", "_", "X"}) + n
		case 2:
			m = n[:i] + n[i+1:]
		case 3:
			m = n[:i] + flip(n[i:i+1]) + n[i+1:]
		case 4:
			m = n[:i] + n[i:i+1] + n[i:]
		default:
			if s, ok := map[string]string{"Int": "Float", "Float": "Int", "ID": "String", "String": "ID", "Boolean": "Int"}[n]; ok {
				m = s
			} else {
				m = flip(n)
			}
		}
		if m != n && m != "" && (m[0] < '0' || m[0] > '9') && m != "true" && m != "false" && m != "null" && (len(m) < 2 || m[:2] != "__") {
			return m
		}
	}
}

func flip(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			b[i] = c ^ 0x20
		}
	}
	return string(b)
}

// tweakWords makes a text that is nearly the same.
func (g *Gen) tweakWords(d string) string {
	switch g.n(7) {
	case 0:
		return d + g.one([]string{" ", "\n", ".", "\t", "  "})
	case 1:
		return g.one([]string{" ", "\n", "\t"}) + d
	case 2:
		return flip(d)
	case 3:
		return d + "\n" + g.one([]string{"more", "", "x"})
	case 4:
		if i := strings.LastIndexByte(d, '\n'); i >= 0 {
			return d[:i+1] + "other"
		}
		return d + "\nother"
	case 5:
		return strings.ReplaceAll(d, " ", "  ")
	}
	if d == "" {
		return " "
	}
	r := []rune(d)
	i := g.n(len(r))
	return string(append(append([]rune{}, r[:i]...), r[i+1:]...))
}

// tweakValue makes a value that is written nearly in the same way.
func (g *Gen) tweakValue(v string) string {
	switch {
	case v == "":
		return v
	case v[0] == '"':
		in := v[1 : len(v)-1]
		if !strings.ContainsRune(in, '\\') {
			switch g.n(6) {
			case 0:
				return `"` + in + ` "`
			case 1:
				return `"` + flip(in) + `"`
			case 2:
				if plainName(in) && in != "" {
					return in
				}
			case 3:
				if in == "0" || in == "1" {
					return in
				}
			case 4:
				return "[" + v + "]"
			}
			return `"` + in + `x"`
		}
		return v + ""
	case v[0] == '[' && len(v) > 2:
		switch g.n(3) {
		case 0:
			return "[" + v + "]"
		case 1:
			return strings.TrimSuffix(v, "]") + ",1]"
		}
		return "[1," + v[1:]
	case v[0] == '[':
		return g.one([]string{"{}", "[[]]", "[null]", "null"})
	case v[0] == '{' && len(v) > 2:
		i := strings.IndexByte(v, ':')
		switch g.n(4) {
		case 0:
			return "{z" + v[1:]
		case 1:
			return "{" + flip(v[1:i]) + v[i:]
		case 2:
			return "[" + v + "]"
		}
		return strings.TrimSuffix(v, "}") + ",zz:1}"
	case v[0] == '{':
		return g.one([]string{"[]", "{a:{}}", "null", "{a:null}"})
	case v[0] >= '0' && v[0] <= '9' || v[0] == '-':
		switch g.n(5) {
		case 0:
			return `"` + v + `"`
		case 1:
			return "[" + v + "]"
		case 2:
			if v[0] != '-' {
				return "-" + v
			}
			return v[1:]
		case 3:
			if !strings.ContainsAny(v, ".e") {
				return v + ".0"
			}
		}
		if strings.TrimPrefix(v, "-")[0] == '0' && !strings.ContainsAny(v, ".e") {
			return "1"
		}
		return v + g.one([]string{"0", "1"})
	}
	switch g.n(4) { // a name
	case 0:
		return `"` + v + `"`
	case 1:
		if v == "true" || v == "false" || v == "null" {
			return flip(v)
		}
	case 2:
		return "[" + v + "]"
	}
	return g.tweakName(v)
}

func plainName(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return true
}
