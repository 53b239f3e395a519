// Package model holds the document shape shared with the TLA+ specifications (see spec/GqlCompare.tla), its projection
// from the parser's syntax tree and its rendering to schema text.
package model

import (
	"reflect"

	"github.com/vektah/gqlparser/v2/ast"
)

type Pos struct {
	F string `json:"f"`
	L int    `json:"l"`
	C int    `json:"c"`
}

type Type struct {
	NN   bool    `json:"nn"`
	List bool    `json:"list"`
	Name string  `json:"name"`
	Elem []*Type `json:"elem"`
}

type AppArg struct {
	Name string `json:"name"`
	Val  string `json:"val"`
	Pos  Pos    `json:"pos"`
}

type App struct {
	Name string   `json:"name"`
	Args []AppArg `json:"args"`
	Pos  Pos      `json:"pos"`
}

type Arg struct {
	Name string `json:"name"`
	Desc string `json:"desc"`
	Type *Type  `json:"type"`
	Def  string `json:"def"`
	Pos  Pos    `json:"pos"`
}

type Field struct {
	Name string `json:"name"`
	Desc string `json:"desc"`
	Args []Arg  `json:"args"`
	Type *Type  `json:"type"`
	TPos Pos    `json:"tpos"`
	Def  string `json:"def"`
	Dirs []App  `json:"dirs"`
	Pos  Pos    `json:"pos"`
}

type Val struct {
	Name string `json:"name"`
	Desc string `json:"desc"`
	Dirs []App  `json:"dirs"`
	Pos  Pos    `json:"pos"`
}

type Def struct {
	Kind    string   `json:"kind"`
	Name    string   `json:"name"`
	Desc    string   `json:"desc"`
	Dirs    []App    `json:"dirs"`
	Ifaces  []string `json:"ifaces"`
	Fields  []Field  `json:"fields"`
	Members []string `json:"members"`
	Values  []Val    `json:"values"`
	Pos     Pos      `json:"pos"`
}

type Op struct {
	Op   string `json:"op"`
	Type string `json:"type"`
	Pos  Pos    `json:"pos"`
}

type SBlock struct {
	Ops []Op `json:"ops"`
	Pos Pos  `json:"pos"`
}

type DirDef struct {
	Name string   `json:"name"`
	Desc string   `json:"desc"`
	Args []Arg    `json:"args"`
	Locs []string `json:"locs"`
	Rep  bool     `json:"rep"`
	Pos  Pos      `json:"pos"`
}

type Doc struct {
	Schema    []SBlock `json:"schema"`
	SchemaExt []SBlock `json:"schemaExt"`
	Dirs      []DirDef `json:"dirs"`
	Defs      []Def    `json:"defs"`
	Exts      []Def    `json:"exts"`
}

const Nil = "<nil>"

// NamePos maps the name of a source to what is put into positions; set by drivers that work in scratch directories.
type Projector struct {
	File func(string) string
}

func (pr Projector) pos(p *ast.Position) Pos {
	if p == nil {
		return Pos{F: "<none>"}
	}
	f := ""
	if p.Src != nil {
		f = p.Src.Name
	}
	if pr.File != nil {
		f = pr.File(f)
	}
	return Pos{F: f, L: p.Line, C: p.Column}
}

func ProjectType(t *ast.Type) *Type {
	if t.NamedType != "" {
		return &Type{NN: t.NonNull, Name: t.NamedType, Elem: []*Type{}}
	}
	return &Type{NN: t.NonNull, List: true, Name: "", Elem: []*Type{ProjectType(t.Elem)}}
}

func (pr Projector) apps(l ast.DirectiveList) []App {
	r := []App{}
	for _, d := range l {
		a := App{Name: d.Name, Args: []AppArg{}, Pos: pr.pos(d.Position)}
		for _, x := range d.Arguments {
			a.Args = append(a.Args, AppArg{Name: x.Name, Val: x.Value.String(), Pos: pr.pos(x.Position)})
		}
		r = append(r, a)
	}
	return r
}

func (pr Projector) args(l ast.ArgumentDefinitionList) []Arg {
	r := []Arg{}
	for _, a := range l {
		r = append(r, Arg{Name: a.Name, Desc: a.Description, Type: ProjectType(a.Type), Def: a.DefaultValue.String(), Pos: pr.pos(a.Position)})
	}
	return r
}

func (pr Projector) defs(l ast.DefinitionList) []Def {
	r := []Def{}
	for _, d := range l {
		x := Def{Kind: string(d.Kind), Name: d.Name, Desc: d.Description, Dirs: pr.apps(d.Directives), Ifaces: strs(d.Interfaces),
			Fields: []Field{}, Members: strs(d.Types), Values: []Val{}, Pos: pr.pos(d.Position)}
		for _, f := range d.Fields {
			x.Fields = append(x.Fields, Field{Name: f.Name, Desc: f.Description, Args: pr.args(f.Arguments), Type: ProjectType(f.Type),
				TPos: pr.pos(f.Type.Position), Def: f.DefaultValue.String(), Dirs: pr.apps(f.Directives), Pos: pr.pos(f.Position)})
		}
		for _, v := range d.EnumValues {
			x.Values = append(x.Values, Val{Name: v.Name, Desc: v.Description, Dirs: pr.apps(v.Directives), Pos: pr.pos(v.Position)})
		}
		r = append(r, x)
	}
	return r
}

func (pr Projector) blocks(l ast.SchemaDefinitionList) []SBlock {
	r := []SBlock{}
	for _, b := range l {
		x := SBlock{Ops: []Op{}, Pos: pr.pos(b.Position)}
		for _, o := range b.OperationTypes {
			x.Ops = append(x.Ops, Op{Op: string(o.Operation), Type: o.Type, Pos: pr.pos(o.Position)})
		}
		r = append(r, x)
	}
	return r
}

func strs(l []string) []string {
	return append([]string{}, l...)
}

// Project turns the parser's syntax tree into a Doc.
func (pr Projector) Project(s *ast.SchemaDocument) *Doc {
	d := &Doc{Schema: pr.blocks(s.Schema), SchemaExt: pr.blocks(s.SchemaExtension), Dirs: []DirDef{}, Defs: pr.defs(s.Definitions), Exts: pr.defs(s.Extensions)}
	for _, x := range s.Directives {
		locs := []string{}
		for _, l := range x.Locations {
			locs = append(locs, string(l))
		}
		d.Dirs = append(d.Dirs, DirDef{Name: x.Name, Desc: x.Description, Args: pr.args(x.Arguments), Locs: locs, Rep: x.IsRepeatable, Pos: pr.pos(x.Position)})
	}
	return d
}

// ZeroPos clears all positions.
func ZeroPos(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			ZeroPos(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			ZeroPos(v.Index(i))
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(Pos{}) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			ZeroPos(v.Field(i))
		}
	}
}
