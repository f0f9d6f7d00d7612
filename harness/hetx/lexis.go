package hetx

import (
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// twoOperands parses "l OP r" and says what it reads: the binary operator, the prefix operator of the right operand.
func readOps(text string) (string, bool) {
	ast, err := etx.ParseString(text)
	if err != nil {
		return "", false
	}
	if len(ast.Items) == 0 || ast.Items[0].Attribute == nil || ast.Items[0].Attribute.Value == nil {
		return "?", true
	}
	return groupingOf(ast.Items[0].Attribute.Value), true
}

var leftOperands = []string{"xa", "(xa)", "47", "xa[i]", "\"s\"", "xa()"}
var leftGroups = []string{"xa", "xa", "47", "(xa[i])", "\"s\"", "(xa())"}

// Operators: each operator, with and without blanks, between operands of every kind.
//
//verif prop=C16 panic=* reach=parsed
func Operators() {
	o := allOps[v.Case()]
	k := v.Choose("left", len(leftOperands))
	sp := v.Choose("blanks", 4)
	r := v.Choose("right", 4)
	un := []string{"", "-", "!", "~"}[v.Choose("prefix", 4)]
	tail := "\n"
	if k == 0 {
		tail = []string{"\n", " \n", "\t\n", "", " // c\n", "//c\n"}[v.Choose("tail", 6)]
	}
	text := leftOperands[k]
	if sp&1 != 0 {
		text += " "
	} else if k == 0 && o == "-" && un == "" && r < 2 {
		return // a hyphenated name
	}
	text += o
	if sp&2 != 0 {
		text += " "
	} else if o == "<<" && un != "~" && un != "!" && r < 2 && tail == "\n" {
		return // the start of a heredoc
	}
	text += un + []string{"yb", "47", "(yb)", "'s'"}[r]
	g := []string{"yb", "47", "yb", "\"s\""}[r]
	if un != "" {
		g = "(" + un + g + ")"
	}
	got, ok := readOps("r = " + text + tail)
	v.ObsStr("text", text)
	v.ObsStr("got", got)
	v.Reach("parsed")
	v.Assert(ok, "C16:the operator is accepted")
	v.Assert(got == "("+leftGroups[k]+o+g+")", "C16:the operator is read whole")
}

func OperatorsCases() int { return numOps }

// punctuation are the bytes that operators are made of.
const punctuation = "=&|^!<>+-*/%~?"

// munch splits a run of operator bytes into the longest operators.
func munch(s string) []string {
	two := []string{"==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "->", "=>"}
	var out []string
	for i := 0; i < len(s); {
		n := 1
		for _, t := range two {
			if i+2 <= len(s) && s[i:i+2] == t {
				n = 2
			}
		}
		out = append(out, s[i:i+n])
		i += n
	}
	return out
}

// Runs: any run of operator bytes between two operands is read as the longest operators.
//
//verif prop=C16 panic=* RUN=2 reach=accepted,rejected
//verif prop=C16 panic=* RUN=3 reach=accepted,rejected
func Runs() {
	n := v.Param("RUN")
	run := make([]byte, n)
	for i := range run {
		run[i] = v.Byte("b", i)
		if i == 0 {
			v.Assume(run[0] == punctuation[v.Case()])
			continue
		}
		in := false
		for k := 0; k < len(punctuation); k++ {
			in = v.Or(in, run[i] == punctuation[k])
		}
		v.Assume(in)
		v.Assume(v.Not(v.And(run[i-1] == '/', v.Or(run[i] == '/', run[i] == '*')))) // comments
	}
	s := string(run)
	got, ok := readOps("r = (xa)" + s + "(yb)\n")
	v.ObsStr("run", s)
	toks := munch(s)
	binary, prefix := "", ""
	good := len(toks) == 1 || len(toks) == 2
	if good {
		binary = toks[0]
		good = false
		for _, o := range allOps {
			good = good || o == binary
		}
	}
	if good && len(toks) == 2 {
		prefix = toks[1]
		good = prefix == "-" || prefix == "!" || prefix == "~" || prefix == "+"
	}
	if ok {
		v.Reach("accepted")
	} else {
		v.Reach("rejected")
	}
	v.Assert(ok == good, "C16:a run of operator characters is split into the longest operators")
	if ok && good {
		g := "yb"
		if prefix != "" {
			g = "(" + prefix + "yb)"
		}
		v.Assert(got == "(xa"+binary+g+")", "C16:a run of operator characters is split into the longest operators")
	}
}

func RunsCases() int { return len(punctuation) }

var keywords = []string{"if", "else", "switch", "case", "val", "const", "input", "output", "def", "type", "enum", "object", "true", "false", "null", "default"}

func isWord(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_'
}

// places are where a name can stand; read gives the name as it was read.
var places = []struct {
	text string
	read func(*etx.RootItem) string
}{
	{"val @ = 1\n", func(it *etx.RootItem) string { return it.Decl.Label }},
	{"r = @\n", func(it *etx.RootItem) string { return primaryName(it.Attribute.Value) }},
	{"@ = 1\n", func(it *etx.RootItem) string { return it.Attribute.Key }},
	{"@ {}\n", func(it *etx.RootItem) string { return it.Block.Name }},
	{"b @ {}\n", func(it *etx.RootItem) string { return it.Block.Labels[0] }},
	{"def @() {}\n", func(it *etx.RootItem) string { return it.Func.Label }},
	{"def f() { @ }\n", func(it *etx.RootItem) string { return primaryName(it.Func.Body[0].Expr) }},
	{"def f(@) { }\n", func(it *etx.RootItem) string { return it.Func.Parameters[0].Label }},
	{"r = {@: 1}\n", func(it *etx.RootItem) string {
		return strings.Join(operand(it.Attribute.Value).Value.Map.Items[0].Key.Ident.Parts, ".")
	}},
	{"type @ enum {}\n", func(it *etx.RootItem) string { return it.Type.Label }},
	{"type t object {\n@: x\n}\n", func(it *etx.RootItem) string { return it.Type.Object.Items[0].Label }},
	{"type t enum {\n@: 1\n}\n", func(it *etx.RootItem) string { return it.Type.Enum.Items[0].Label }},
	{"val x: @ = 1\n", func(it *etx.RootItem) string { return it.Decl.Type.FormattedString() }},
	{"r = f(@)\n", func(it *etx.RootItem) string { return primaryName(operand(it.Attribute.Value).Monads[0].Values[0]) }},
	{"r = 1 +@\n", func(it *etx.RootItem) string {
		g := groupingOf(it.Attribute.Value)
		return strings.TrimSuffix(strings.TrimPrefix(g, "(1+"), ")")
	}},
	{"r = @.y\n", func(it *etx.RootItem) string {
		return strings.TrimSuffix(primaryName(it.Attribute.Value), ".y")
	}},
	{"r = x.@\n", func(it *etx.RootItem) string {
		return strings.TrimPrefix(primaryName(it.Attribute.Value), "x.")
	}},
}

func primaryName(e *etx.Expr) string {
	p := operand(e)
	if p == nil || p.Ident == nil {
		return "?"
	}
	return strings.Join(p.Ident.Parts, ".")
}

// nameAt parses a name at a place and compares it with what was read.
func nameAt(place int, name, label string) {
	p := places[place]
	text := strings.Replace(p.text, "@", name, 1)
	v.ObsStr("text", text)
	v.Reach("name")
	ast, err := etx.ParseString(text)
	v.Assert(err == nil, label)
	if err == nil {
		got := ""
		func() {
			defer func() {
				if recover() != nil {
					got = "?"
				}
			}()
			if len(ast.Items) > 0 {
				got = p.read(ast.Items[0])
			}
		}()
		v.ObsStr("read", got)
		v.Assert(got == name, label)
	}
}

// Names: any identifier of a few characters.
//
//verif prop=C16 panic=* LEN=2 reach=name
//verif prop=C16 panic=* LEN=4 reach=name
func Names() {
	n := v.Param("LEN")
	b := make([]byte, n+1)
	b[0] = 'x'
	for i := 1; i <= n; i++ {
		c := v.Byte("b", i)
		v.Assume(v.Or(v.Or(v.Or(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z')), v.And(c >= '0', c <= '9')), v.Or(c == '_', c == '-')))
		v.Assume(v.Not(v.And(c == '-', v.Or(i == n, b[i-1] == '-'))))
		b[i] = c
	}
	nameAt(v.Case(), string(b), "C16:a name is read whole")
}

func NamesCases() int { return len(places) }

// KeywordNames: a name that merely starts or ends with a keyword, or holds one, is an ordinary name.
//
//verif prop=C16 panic=* reach=name
func KeywordNames() {
	place := v.Choose("place", len(places))
	k := keywords[v.Case()]
	c := v.Byte("b")
	v.Assume(v.Or(v.Or(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z')), v.Or(v.And(c >= '0', c <= '9'), c == '_')))
	x := string([]byte{c})
	label := "C16:a name that starts or ends with a keyword is an ordinary name"
	name := ""
	switch v.Choose("form", 7) {
	case 0:
		name = k + x
		for _, o := range keywords {
			v.Assume(name != o)
		}
	case 1:
		v.Assume(c > '9' && c != '_')
		name = x + k
	case 2:
		name = "x-" + k + x
	case 3:
		name = "x-" + k
	case 5:
		name = strings.ToUpper(k)
	case 6: // one letter in the other case
		b := []byte(k)
		b[v.Choose("letter", len(b))] -= 'a' - 'A'
		name = string(b)
	case 4:
		name = k + "-" + x
		if v.Case() < 4 {
			label = "C16:a hyphenated name that starts with if, else, switch or case is an ordinary name"
		}
	}
	nameAt(place, name, label)
}

func KeywordNamesCases() int { return len(keywords) }
