package model

import (
	"math/rand"
	"strings"
)

// LintText writes random schema texts for the linter: odd names, missing descriptions, relay connections, strings and
// comments with and without inline configuration, all kinds of line ends.
type LintText struct {
	R       *rand.Rand
	Configs int  // share of lines with a configuration comment, in percent
	Line    bool // use lint-disable-line
	Block   bool // use lint-disable and lint-enable
	Strings bool // strings that look like comments
	Ends    bool // all kinds of line ends
	Rules   []string
	Short   bool
	Dense   bool // several definitions and members on a line
	Many    bool // many definitions, extensions and members
}

var (
	ltTypes  = []string{"User", "user", "UserConnection", "userConnection", "PageInfo", "Query", "aB", "_x", "zed", "A", "Z", "Edge", "Connection", "ConnectionType", "aConnection", "Node", "m", "type", "enum", "Type", "_Connection", "inputConnection", "AVeryLongTypeNameOfManyWords", "aVeryLongTypeNameOfManyWords"}
	ltFields = []string{"id", "Name", "user_name", "edges", "pageInfo", "a1", "_p", "camelCase", "ABC", "nodes", "zzz", "Zed", "z", "a", "type", "input", "on", "query", "implements", "aVeryLongFieldNameOfManyWords", "AVeryLongFieldNameOfManyWords", "a_very_long_field_name"}
	ltArgs   = []string{"first", "after", "last", "before", "x", "Y", "type", "input", "enum", "on", "aVeryLongArgumentName", "first_or_last", "x1"}
	ltValues = []string{"RED", "red", "Red", "A_1", "a", "Z", "z", "_", "R2", "zA", "type", "TYPE", "enum", "on", "A_VERY_LONG_VALUE_NAME", "A_VERY_LONG_vALUE_NAME", "aVeryLongValueName"}
	ltKinds  = []string{"type", "type", "type", "interface", "union", "enum", "enum", "input", "scalar"}
)

func (g *LintText) n(k int) int           { return g.R.Intn(k) }
func (g *LintText) one(l []string) string { return l[g.n(len(l))] }
func (g *LintText) pick(l []string, k int) []string {
	r := []string{}
	for _, i := range g.R.Perm(len(l)) {
		if len(r) < k {
			r = append(r, l[i])
		}
	}
	return r
}

// bent is a name, or one that is nearly that.
func (g *LintText) bent(s string) string {
	if g.n(5) > 0 {
		return s
	}
	i := g.n(len(s) + 1)
	j := i
	if i < len(s) {
		j++
	}
	x := g.one([]string{"a", "z", "A", "Z", "_", "0", "9", "s", "n", "m", "M"})
	switch g.n(4) {
	case 0:
		s = s[:i] + x + s[i:]
	case 1:
		s = s[:i] + s[j:]
	case 2:
		s = s[:i] + x + s[j:]
	default:
		if i < len(s) {
			c := s[i : i+1]
			if c == strings.ToUpper(c) {
				c = strings.ToLower(c)
			} else {
				c = strings.ToUpper(c)
			}
			s = s[:i] + c + s[i+1:]
		}
	}
	if s == "" || s[0] >= '0' && s[0] <= '9' {
		s = "x" + s
	}
	if s == "true" || s == "false" || s == "null" || strings.HasPrefix(s, "__") {
		s = "y" + s
	}
	return s
}

// names are k different names, some of the pool and some near them.
func (g *LintText) names(l []string, k int) []string {
	r := []string{}
	for tries := 0; len(r) < k && tries < 3*k; tries++ {
		if s := g.bent(g.one(l)); !contains(r, s) {
			r = append(r, s)
		}
	}
	return r
}

// few is a small count, or with Many at times a large one.
func (g *LintText) few(k int) int {
	if g.Many && g.n(3) == 0 {
		return 1 + g.n(4*k)
	}
	return 1 + g.n(k)
}

func (g *LintText) rule() string {
	r := g.one(g.Rules)
	switch g.n(8) {
	case 0:
		return strings.ToUpper(r)
	case 1:
		return strings.Title(r)
	case 2:
		return strings.ReplaceAll(r, "s", "\u017f")
	case 3:
		if g.n(3) == 0 {
			return r[:len(r)-1]
		}
	}
	return r
}

// Config is a comment that configures the linter, or nearly does.
func (g *LintText) Config() string {
	cmds := []string{}
	if g.Block {
		cmds = append(cmds, "disable", "disable", "disable", "enable", "enable")
	}
	if g.Line {
		cmds = append(cmds, "disable-line", "disable-line")
	}
	cmd := g.one(cmds)
	lead := "#lint-"
	if g.n(12) == 0 {
		lead = g.one([]string{"# lint-", "##lint-", "#Lint-", "#lint", "# #lint-", "#\tlint-", "#lint--"})
	}
	if g.n(20) == 0 {
		cmd = g.one([]string{"", "Disable", "disabled", "enable-line", "disable-lines", "DISABLE", "disable-line-"})
	}
	s := lead + cmd + g.one([]string{" ", " ", " ", "\t", "  \t ", "", "\u00a0", ",", " ,"})
	k := 1 + g.n(3)
	if g.n(4) == 0 {
		k = len(g.Rules)
	}
	if g.n(15) == 0 {
		k = 0
	}
	for i := 0; i < k; i++ {
		if i > 0 {
			s += g.one([]string{",", ", ", " ,", " , ", ",,", ",\t", " "}[:6+g.n(2)])
		}
		if k == len(g.Rules) {
			s += g.Rules[i]
		} else {
			s += g.rule()
		}
	}
	return s + g.one([]string{"", "", " ", "\t", ",", " # more", "\u2003"}[:5+g.n(3)])
}

func (g *LintText) comment() string {
	return g.one([]string{"# note", "#", "# \"quoted", "# \"\"\"", "#lint", "# é 世", "#c # d", "#\\"})
}

// nl ends a line, perhaps with a comment and perhaps followed by comment lines.
func (g *LintText) nl() string {
	end := "\n"
	s := ""
	if g.n(100) < g.Configs {
		s += g.one([]string{"", " "}) + g.Config()
	} else if g.n(12) == 0 {
		s += " " + g.comment()
	}
	if g.Dense && s == "" && g.n(5) > 0 {
		return g.one([]string{" ", " ", "  ", ", ", "\t"})
	}
	s += end
	for g.n(100) < g.Configs/2 {
		s += g.one([]string{"", "  ", "\t", ","}) + g.Config() + end
	}
	if g.n(15) == 0 {
		s += g.one([]string{"", " ", "\t", ",,", "\ufeff"}) + end
	}
	return s
}

func (g *LintText) sp() string { // between tokens
	switch g.n(16) {
	case 0:
		return g.nl() + "  "
	case 1:
		return g.one([]string{"  ", "\t", ",", " , "})
	}
	return " "
}

func (g *LintText) str() string {
	s := `"`
	for i := g.n(4); i > 0; i-- {
		s += g.one([]string{"word", " ", `\"`, `\\`, `\n`, "#lint-disable " + g.one(g.Rules), "#", `\u00e9`, "é", "世", `\\\"`, "#lint-enable " + g.one(g.Rules)})
	}
	return s + `"`
}

func (g *LintText) block() string {
	s := `"""`
	for i := g.n(6); i > 0; i-- {
		s += g.one([]string{"word", " ", `"`, `""x`, `\"""`, "\n", "\n  ", "#lint-disable " + strings.Join(g.Rules, ","), "\n#lint-enable " + g.one(g.Rules), "#", "\n#lint-disable-line " + g.one(g.Rules) + "\n", `\`, "é"})
	}
	if strings.Contains(strings.ReplaceAll(s[3:], `\"""`, "E"), `"""`) { // it would end there
		return g.block()
	}
	if strings.HasSuffix(s, `"`) && len(s) > 3 || strings.HasSuffix(s, `\`) {
		s += " "
	}
	return s + `"""`
}

func (g *LintText) desc(indent string) string {
	if g.n(5) < 3 {
		return ""
	}
	var s string
	switch {
	case g.Strings && g.n(3) > 0:
		if g.n(2) == 0 {
			s = g.str()
		} else {
			s = g.block()
		}
	case g.n(10) == 0:
		s = `""`
	case g.n(3) == 0:
		s = "\"\"\"\n" + indent + "about\n" + indent + `"""`
	default:
		s = `"about"`
	}
	if g.n(6) == 0 {
		return s + " "
	}
	return s + g.nl() + indent
}

func (g *LintText) typ(depth int) string {
	n := g.one([]string{"Int", "Int", "String", "PageInfo", "UserConnection", "userConnection", "aConnection", "Edge", "Connection", "ConnectionType", "Connections"})
	s := g.bent(n)
	if depth > 0 && g.n(4) == 0 {
		s = "[" + g.typ(depth-1) + "]"
	}
	if g.n(3) == 0 {
		s += g.one([]string{"!", " !"})
	}
	return s
}

func (g *LintText) args() string {
	if g.n(3) == 0 {
		return ""
	}
	as := g.names(ltArgs, g.few(5))
	s := "("
	for i, a := range as {
		if i > 0 {
			s += g.one([]string{", ", " ", "\n    "})
		}
		s += g.desc("    ") + a + ":" + g.sp()
		if g.n(2) == 0 && a != "x" {
			s += g.one([]string{"Int", "Int", "Int!", "[Int]", "String"})
		} else {
			s += g.typ(1)
		}
		if g.n(6) == 0 {
			s += " = " + g.one([]string{"1", "null", g.str(), "[1,2]", "{a:1}"})
		}
	}
	return s + ")"
}

func (g *LintText) apps() string {
	if g.n(6) > 0 {
		return ""
	}
	s := " @" + g.one([]string{"deprecated", "tag", "x"})
	if g.n(2) == 0 {
		s += "(a:" + g.sp() + g.one([]string{g.str(), "1", g.block()}) + ")"
	}
	return s
}

func (g *LintText) body(kind, name string, ext bool) string {
	switch kind {
	case "type", "interface", "input":
		head := ""
		if kind == "type" && g.n(6) == 0 {
			head = " implements Node"
		}
		head += g.apps()
		if g.n(10) == 0 && (!ext || head != "") {
			return head
		}
		fs := g.names(ltFields, g.few(5))
		if strings.HasSuffix(name, "Connection") && g.n(3) > 0 {
			fs = append(fs, []string{"edges", "pageInfo"}[:1+g.n(2)]...)
			fs = uniq(fs)
		}
		s := head + g.sp() + "{" + g.nl()
		for _, f := range fs {
			s += "  " + g.desc("  ") + f
			if kind != "input" {
				s += g.args()
			}
			s += ":" + g.sp()
			switch {
			case f == "pageInfo" && g.n(2) == 0:
				s += g.one([]string{"PageInfo!", "PageInfo !", "PageInfo", "[PageInfo!]!"})
			case f == "edges" && g.n(2) == 0:
				s += g.one([]string{"[Edge]", "[Edge!]!", "Edge"})
			default:
				s += g.typ(2)
			}
			s += g.apps() + g.nl()
		}
		return s + "}"
	case "enum":
		s := g.apps() + " {" + g.nl()
		for _, v := range g.names(ltValues, g.few(5)) {
			s += "  " + g.desc("  ") + v + g.apps() + g.one([]string{" ", "", "", ","}) + g.nl()
		}
		return s + "}"
	case "union":
		return g.apps() + " = " + strings.Join(g.pick([]string{"A", "B", "User"}, 1+g.n(3)), " | ")
	}
	s := g.apps() // scalar
	if ext && s == "" {
		s = " @x"
	}
	return s
}

func uniq(l []string) []string {
	r := []string{}
	for _, x := range l {
		if !contains(r, x) {
			r = append(r, x)
		}
	}
	return r
}

// Text writes a schema text.
func (g *LintText) Text() string {
	k := 1 + g.n(4)
	if g.Short {
		k = 1 + g.n(2)
	}
	if g.Many {
		k = 4 + g.n(12)
	}
	names := g.names(ltTypes, k)
	kind := map[string]string{}
	s := ""
	if g.n(10) == 0 {
		s += g.comment() + "\n"
	}
	if g.Configs > 0 && g.n(3) == 0 {
		s += g.Config() + "\n"
	}
	if g.n(12) == 0 {
		s += "schema {" + g.nl() + "query: Query }" + g.nl()
	}
	for _, n := range names {
		kind[n] = g.one(ltKinds)
		form := g.n(4)
		if form < 3 {
			s += g.desc("") + kind[n] + g.sp() + n + g.body(kind[n], n, false) + g.nl()
		}
		if form >= 2 {
			s += "extend" + g.sp() + kind[n] + g.sp() + n + extBody(g, kind[n], n, form == 2) + g.nl()
		}
	}
	if g.n(8) == 0 {
		s += g.desc("") + "directive @d" + g.args() + " on FIELD" + g.nl()
	}
	if g.n(3) == 0 { // the last thing need not end with a line end
		s = strings.TrimRight(s, "\n")
	}
	if g.Configs > 0 && g.n(6) == 0 {
		s += "\n" + g.Config()
	}
	if g.Ends {
		switch g.n(5) {
		case 0:
			s = strings.ReplaceAll(s, "\n", "\r\n")
		case 1:
			s = strings.ReplaceAll(s, "\n", "\r")
		case 2:
			p := strings.Split(s, "\n")
			s = p[0]
			for _, x := range p[1:] {
				s += g.one([]string{"\n", "\r", "\r\n", "\n"}) + x
			}
		}
		if g.n(4) == 0 {
			s = "\ufeff" + s
		}
	}
	return s
}

// extBody avoids members that the definition may have.
func extBody(g *LintText, kind, n string, both bool) string {
	if !both {
		return g.body(kind, n, true)
	}
	switch kind {
	case "type", "interface", "input":
		return " {" + g.nl() + "  " + g.desc("  ") + "ext_" + g.one(ltArgs) + ":" + g.sp() + g.typ(1) + g.nl() + "}"
	case "enum":
		return " {" + g.nl() + "  " + g.desc("  ") + g.one([]string{"EXT", "ext"}) + " " + g.nl() + "}"
	case "union":
		return " = Other"
	}
	return " @x"
}
