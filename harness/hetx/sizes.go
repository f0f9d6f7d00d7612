package hetx

import (
	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// nested writes an expression within d layers of a construct.
func (g *gen) nested(kind, d int) *etx.Expr {
	if d == 0 {
		return g.expr()
	}
	p := g.pos()
	val := func(x *etx.Value) *etx.Expr {
		x.ASTNode = p
		return expr(toLor(unary(etx.ExprPrimary{ASTNode: p, Value: x})))
	}
	name := func() etx.ExprPrimary {
		q := g.pos()
		return etx.ExprPrimary{ASTNode: q, Ident: &etx.Ident{ASTNode: q, Parts: []string{g.name()}}}
	}
	switch kind {
	case 0: // parentheses around an operation
		g.t("(")
		q := g.pos()
		a := etx.ExprUnary{ASTNode: q, Right: etx.ExprPostfix{ASTNode: q, Value: etx.ExprPrimary{ASTNode: q, SubExpression: nil}}}
		if d == 1 {
			a = unary(name())
		} else {
			a.Right.Value = *operand(g.nested(kind, d-1))
		}
		g.t(" ")
		o := "-"
		if d <= 2 {
			o = g.op(8)
		} else {
			g.t(o)
		}
		g.t(" ")
		x := expr(binary(8, a, o, unary(name())))
		g.t(")")
		return expr(toLor(unary(etx.ExprPrimary{ASTNode: p, SubExpression: x})))
	case 1: // lists
		out := &etx.ValueList{ASTNode: p}
		g.t("[")
		q := g.pos()
		out.Items = []*etx.ListItem{{ASTNode: q, Value: g.nested(kind, d-1)}}
		g.t("]")
		return val(&etx.Value{List: out})
	case 2: // maps
		out := &etx.ValueMap{ASTNode: p}
		g.t("{")
		q := g.pos()
		it := &etx.MapItem{ASTNode: q, Key: &etx.MapKey{ASTNode: q, Ident: &etx.Ident{ASTNode: q, Parts: []string{g.name()}}}}
		g.t(": ")
		it.Value = g.nested(kind, d-1)
		out.Items = []*etx.MapItem{it}
		g.t("}")
		return val(&etx.Value{Map: out})
	case 3: // calls
		x := name()
		g.t("(")
		q := g.pos()
		x.Monads = []*etx.ExprInvocationParams{{ASTNode: q, Values: []*etx.Expr{g.nested(kind, d-1)}}}
		g.t(")")
		return expr(toLor(unary(x)))
	case 4: // indexes
		u := etx.ExprUnary{ASTNode: p, Right: etx.ExprPostfix{ASTNode: p, Value: name()}}
		g.t("[")
		u.Right.Index = g.nested(kind, d-1)
		g.t("]")
		return expr(toLor(u))
	case 5: // strings
		f := &etx.ValueString{ASTNode: p}
		g.t("\"")
		q := g.pos()
		g.t("${")
		fr := &etx.StringFragment{ASTNode: q, Expr: g.nested(kind, d-1)}
		g.t("}")
		q = g.pos()
		g.raw("t")
		f.Fragment = []*etx.StringFragment{fr, {ASTNode: q, Text: "t"}}
		g.t("\"")
		return val(&etx.Value{Str: f})
	case 6: // conditionals
		out := &etx.Expr{ASTNode: p, Left: &etx.ExprConditional{ASTNode: p, Condition: toLor(unary(name())), ConditionOp: true}}
		g.t(" ? ")
		out.Left.TrueExpr = g.expr()
		g.t(" : ")
		out.Left.FalseExpr = g.nested(kind, d-1)
		return out
	case 7: // if
		out := &etx.ExprIf{ASTNode: p}
		g.t("if ")
		out.Condition = g.condition()
		g.t(" {\n")
		out.Left = g.nested(kind, d-1)
		g.t("\n} else {")
		out.Right = g.expr()
		g.t("}")
		return &etx.Expr{ASTNode: p, If: out}
	case 8: // switch
		out := &etx.ExprSwitch{ASTNode: p}
		g.t("switch ")
		out.Selector = g.condition()
		g.t(" {\n")
		c := &etx.ExprCase{ASTNode: g.pos(), Default: true}
		g.t("default: { ")
		c.Expr = g.nested(kind, d-1)
		g.t(" }\n}")
		out.Cases = []*etx.ExprCase{c}
		return &etx.Expr{ASTNode: p, Switch: out}
	case 9: // if in the other branch
		out := &etx.ExprIf{ASTNode: p}
		g.t("if ")
		out.Condition = g.condition()
		g.t(" { ")
		out.Left = g.expr()
		g.t(" } else { ")
		out.Right = g.nested(kind, d-1)
		g.t(" }")
		return &etx.Expr{ASTNode: p, If: out}
	case 10: // accesses of calls
		x := name()
		q := g.pos()
		g.t("(")
		x.Monads = []*etx.ExprInvocationParams{{ASTNode: q, Values: nil}}
		x.Monads[0].ASTNode = g.pos()
		g.t(").")
		inner := g.nested(kind, d-1)
		post := etx.ExprPostfix{ASTNode: operand(inner).ASTNode, Value: *operand(inner)}
		x.Post = &post
		return expr(toLor(unary(x)))
	default: // accesses of indexed names
		u := etx.ExprUnary{ASTNode: p, Right: etx.ExprPostfix{ASTNode: p, Value: name()}}
		g.t("[")
		u.Right.Index = g.expr()
		g.t("].")
		inner := g.nested(kind, d-1)
		post := inner.Left.Condition.Left.Left.Left.Left.Left.Left.Left.Left.Left.Left.Right
		u.Right.Post = &post
		return expr(toLor(u))
	}
}

const nestings = 12

// wide writes a document with n elements of a kind.
func (g *gen) wide(kind, n int) *etx.AST {
	out := &etx.AST{}
	item := func(f func(it *etx.RootItem)) {
		it := &etx.RootItem{ASTNode: g.pos()}
		f(it)
		out.Items = append(out.Items, it)
		g.t("\n")
	}
	valueOf := func(f func() etx.ExprPrimary) {
		item(func(it *etx.RootItem) {
			it.Attribute = &etx.Attribute{ASTNode: g.pos(), Key: g.name()}
			g.t(" = ")
			it.Attribute.Value = expr(toLor(unary(f())))
		})
	}
	value := func(f func(*etx.Value)) {
		valueOf(func() etx.ExprPrimary {
			p := g.pos()
			x := &etx.Value{ASTNode: p}
			f(x)
			return etx.ExprPrimary{ASTNode: p, Value: x}
		})
	}
	many := func(c byte) string {
		s := make([]byte, n)
		for i := range s {
			s[i] = c
		}
		return string(s)
	}
	switch kind {
	case 0:
		value(func(x *etx.Value) { x.List = g.list(n) })
	case 1:
		value(func(x *etx.Value) { x.Map = g.mapp(n) })
	case 2:
		valueOf(func() etx.ExprPrimary {
			x := etx.ExprPrimary{ASTNode: g.pos(), Ident: g.ident()}
			x.Monads = []*etx.ExprInvocationParams{g.args(n)}
			return x
		})
	case 3:
		valueOf(func() etx.ExprPrimary {
			x := etx.ExprPrimary{ASTNode: g.pos(), Ident: g.ident()}
			for i := 0; i < n; i++ {
				x.Monads = append(x.Monads, g.args(i%2))
			}
			return x
		})
	case 4:
		valueOf(func() etx.ExprPrimary {
			p := g.pos()
			x := etx.ExprPrimary{ASTNode: p, Ident: &etx.Ident{ASTNode: p, Parts: []string{g.name()}}}
			for i := 1; i < n; i++ {
				g.t(".")
				x.Ident.Parts = append(x.Ident.Parts, g.name())
			}
			return x
		})
	case 5:
		item(func(it *etx.RootItem) { it.Func = g.fn(n, 0, 0) })
	case 6:
		item(func(it *etx.RootItem) { it.Func = g.fn(0, n, 0) })
	case 7:
		item(func(it *etx.RootItem) { it.Func = g.fn(0, 0, n) })
	case 8:
		item(func(it *etx.RootItem) { it.Type = g.enum(n) })
	case 9:
		item(func(it *etx.RootItem) { it.Type = g.object(n) })
	case 10: // labels
		item(func(it *etx.RootItem) {
			b := &etx.Block{ASTNode: g.pos(), Name: g.name()}
			it.Block = b
			for i := 0; i < n; i++ {
				g.t(" ")
				if i%2 == 0 {
					l := "l" + string([]byte{g.one('a', 'z')})
					g.t("\"")
					g.raw(l)
					g.t("\"")
					b.Labels = append(b.Labels, l)
				} else {
					b.Labels = append(b.Labels, g.name())
				}
			}
			g.t(" {}")
		})
	case 11:
		item(func(it *etx.RootItem) { it.Block = g.block(1, many('a')) })
	case 12: // blocks within blocks
		item(func(it *etx.RootItem) {
			b := &etx.Block{ASTNode: g.pos(), Name: g.name()}
			it.Block = b
			for i := 0; i < n; i++ {
				g.t(" {\n")
				c := &etx.Block{ASTNode: g.pos(), Name: g.name()}
				b.Body = append(b.Body, &etx.BlockItem{ASTNode: c.ASTNode, Block: c})
				b = c
			}
			g.t(" {}\n")
			for i := 0; i < n; i++ {
				g.t("}\n")
			}
		})
	case 13: // top-level items
		for i := 0; i < n; i++ {
			if i%3 == 2 {
				item(func(it *etx.RootItem) { it.Block = g.block(0, "") })
			} else {
				item(func(it *etx.RootItem) { it.Decl = g.decl() })
			}
		}
	case 14:
		item(func(it *etx.RootItem) {
			it.Decl = &etx.Decl{ASTNode: g.pos(), DeclType: "val"}
			g.t("val ")
			it.Decl.Label = g.name()
			g.t(" = ")
			p := g.pos()
			it.Decl.Value = &etx.Expr{ASTNode: p, Switch: g.swit(n)}
		})
	case 15: // the alternatives of a case
		item(func(it *etx.RootItem) {
			it.Decl = &etx.Decl{ASTNode: g.pos(), DeclType: "const"}
			g.t("const ")
			it.Decl.Label = g.name()
			g.t(" = ")
			p := g.pos()
			s := &etx.ExprSwitch{ASTNode: p}
			g.t("switch ")
			s.Selector = g.condition()
			g.t(" {")
			c := &etx.ExprCase{ASTNode: g.pos()}
			g.t("case ")
			for i := 0; i < n; i++ {
				if i > 0 {
					g.t(", ")
				}
				x := g.condition()
				c.Conditions = append(c.Conditions, &x)
			}
			g.t(":{")
			c.Expr = g.expr()
			g.t("}}")
			s.Cases = []*etx.ExprCase{c}
			it.Decl.Value = &etx.Expr{ASTNode: p, Switch: s}
		})
	case 16: // a signature
		item(func(it *etx.RootItem) {
			it.Decl = &etx.Decl{ASTNode: g.pos(), DeclType: "input"}
			g.t("input ")
			it.Decl.Label = g.name()
			g.t(": ")
			p := g.pos()
			it.Decl.Type = &etx.ParameterType{ASTNode: p, Func: g.sig(n)}
		})
	case 17: // signatures within signatures
		item(func(it *etx.RootItem) {
			it.Decl = &etx.Decl{ASTNode: g.pos(), DeclType: "input"}
			g.t("input ")
			it.Decl.Label = g.name()
			g.t(": ")
			it.Decl.Type = g.deepSig(n)
		})
	case 18: // the pieces of a string
		value(func(x *etx.Value) {
			x.Str = &etx.ValueString{ASTNode: g.pos()}
			g.t("'")
			for i := 0; i < n; i++ {
				p := g.pos()
				f := &etx.StringFragment{ASTNode: p}
				switch i % 4 {
				case 0:
					f.Text = "t" + string([]byte{g.one('a', 'z')})
					g.raw(f.Text)
				case 1:
					g.t("${")
					f.Expr = g.expr()
					g.t("}")
				case 2:
					f.Escaped = "\\" + string([]byte{g.one('n', 't')})
					g.raw(f.Escaped)
				default:
					g.t("%{")
					f.Directive = g.expr()
					g.t("}")
				}
				x.Str.Fragment = append(x.Str.Fragment, f)
			}
			g.t("'")
		})
	case 19: // a long text
		value(func(x *etx.Value) {
			x.Str = &etx.ValueString{ASTNode: g.pos()}
			g.t("\"")
			p := g.pos()
			s := "a" + string([]byte{g.one('a', 'z')}) + many('b') + many(' ') + many('c') + many('.') + string([]byte{g.one('a', 'z')})
			g.raw(s)
			x.Str.Fragment = []*etx.StringFragment{{ASTNode: p, Text: s}}
			g.t("\"")
		})
	case 20: // long names
		item(func(it *etx.RootItem) {
			long := func() string {
				s := "n" + many('a') + string([]byte{g.one('a', 'z')}) + many('_') + many('0') + "-" + many('b') + string([]byte{g.one('a', 'z')})
				g.raw(s)
				return s
			}
			it.Attribute = &etx.Attribute{ASTNode: g.pos(), Key: long()}
			g.t(" = ")
			p := g.pos()
			it.Attribute.Value = expr(toLor(unary(etx.ExprPrimary{ASTNode: p, Ident: &etx.Ident{ASTNode: p, Parts: []string{long()}}})))
		})
	case 21: // a long comment
		it := &etx.RootItem{ASTNode: g.pos()}
		n := len(g.b)
		g.raw("// " + many('x') + string([]byte{g.one(' ', '~')}) + many('y') + many(' ') + "z")
		it.Comment = &etx.Comment{ASTNode: it.ASTNode, SingleLine: []string{string(g.b[n:])}}
		g.comments = append(g.comments, it.Comment.SingleLine...)
		g.t("\n")
		out.Items = append(out.Items, it)
		item(func(it *etx.RootItem) { it.Decl = g.decl() })
	case 22: // many lines of comment
		it := &etx.RootItem{ASTNode: g.pos(), Comment: &etx.Comment{ASTNode: g.pos()}}
		for i := 0; i < n; i++ {
			k := len(g.b)
			g.raw("# ")
			g.c(g.one(' ', '~'))
			it.Comment.SingleLine = append(it.Comment.SingleLine, string(g.b[k:]))
			g.t("\n")
		}
		out.Items = append(out.Items, it)
		item(func(it *etx.RootItem) { it.Decl = g.decl() })
	case 23: // a long block comment
		it := &etx.RootItem{ASTNode: g.pos()}
		k := len(g.b)
		g.raw("/* ")
		for i := 0; i < n; i++ {
			g.t("\n * ")
			g.c(g.one('a', 'z'))
		}
		g.t("\n */")
		it.Comment = &etx.Comment{ASTNode: it.ASTNode, Multiline: string(g.b[k:])}
		g.t("\n")
		out.Items = append(out.Items, it)
		item(func(it *etx.RootItem) { it.Decl = g.decl() })
	case 24: // the lines of a heredoc
		value(func(x *etx.Value) {
			x.Heredoc = &etx.Heredoc{ASTNode: g.pos(), Delimiter: etx.HeredocDelimiter{Delimiter: "EOF"}}
			g.t("<<EOF\n")
			p := g.pos()
			k := len(g.b)
			for i := 0; i < n; i++ {
				g.t(" line ")
				g.c(g.one('a', 'z'))
				g.t("\n")
			}
			x.Heredoc.Fragments = []*etx.HeredocFragment{{ASTNode: p, Text: string(g.b[k:])}}
			g.t("EOF")
		})
	case 25: // the pieces of a heredoc
		value(func(x *etx.Value) {
			x.Heredoc = &etx.Heredoc{ASTNode: g.pos(), Delimiter: etx.HeredocDelimiter{Delimiter: "EOF", LeadingTabs: true}}
			g.t("<<-EOF\n")
			for i := 0; i < n; i++ {
				f := &etx.HeredocFragment{ASTNode: g.pos()}
				g.t("${")
				f.Expr = g.expr()
				g.t("}")
				x.Heredoc.Fragments = append(x.Heredoc.Fragments, f)
				f = &etx.HeredocFragment{ASTNode: g.pos()}
				f.Text = "\nl" + string([]byte{g.one('a', 'z')}) + "\n"
				g.t(f.Text)
				x.Heredoc.Fragments = append(x.Heredoc.Fragments, f)
			}
			g.t("EOF")
		})
	case 26: // blank lines and blanks
		item(func(it *etx.RootItem) { it.Decl = g.decl() })
		for i := 0; i < n; i++ {
			g.t([]string{"\n", "\t\n", " \r\n"}[i%3])
		}
		g.t(many(' '))
		item(func(it *etx.RootItem) {
			it.Decl = &etx.Decl{ASTNode: g.pos(), DeclType: "output"}
			g.t("output" + many(' ') + " ")
			it.Decl.Label = g.name()
			g.t(many('\t') + "=" + many(' '))
			it.Decl.Value = g.expr()
		})
	default:
		item(func(it *etx.RootItem) {
			it.Decl = &etx.Decl{ASTNode: g.pos(), DeclType: "val"}
			g.t("val ")
			it.Decl.Label = g.name()
			g.t(" = ")
			it.Decl.Value = g.nested(kind-wides, n)
		})
	}
	return out
}

const wides = 27

func (g *gen) deepSig(n int) *etx.ParameterType {
	p := g.pos()
	if n == 0 {
		return &etx.ParameterType{ASTNode: p, Ident: g.ident()}
	}
	s := &etx.FuncSignature{ASTNode: p}
	g.t("(")
	s.Parameters = []*etx.ParameterType{g.deepSig(n - 1)}
	g.t(") -> ")
	s.Return = *g.typ()
	return &etx.ParameterType{ASTNode: p, Func: s}
}

// Sizes: many elements, long texts, deep nesting.
//
// verif prop=C11,C12,C13,C14,C20,C21,C22,C23,C24,C25 panic=* FULL=0 reach=accepted
func Sizes() {
	g := newGen(0, 0, 0)
	n := 0
	if v.Case() < wides {
		n = size(70)
	} else {
		n = size(12)
	}
	g.every = 5 + n/4
	checkDoc(g, g.wide(v.Case(), n))
}

func SizesCases() int { return wides + nestings }

// long gives n copies of a text.
func long(s string, n int) string {
	out := make([]byte, 0, n*len(s))
	for i := 0; i < n; i++ {
		out = append(out, s...)
	}
	return string(out)
}

// size chooses how many; the larger ones only where they are cheap.
func size(max int) int {
	ns := []int{6, 12, 20, 40, 70, 140}
	k := 1
	for k < len(ns) && ns[k] <= max {
		k++
	}
	return ns[v.Choose("size", k)]
}

// LongNames: names of many characters and many parts.
//
// verif prop=C16 panic=* reach=name
func LongNames() {
	n := size(140)
	b := v.Byte("b")
	v.Assume(isWord(b))
	x := string([]byte{b})
	name := ""
	switch v.Choose("form", 4) {
	case 0:
		name = "x" + long("a", n) + x
	case 1:
		name = "x" + long("-a", n) + x
	case 2:
		name = "if" + long("_", n) + x
	case 3:
		name = "q" + x + "-" + long("7", n) + "-else"
	}
	nameAt(v.Case(), name, "C16:a name is read whole")
}

func LongNamesCases() int { return len(places) }

// LongChains: many operators in one expression; where one of them stands, any operator.
//
// verif prop=C15 panic=* reach=parsed
func LongChains() {
	n := size(20)
	at := []int{0, n / 2, n - 1}[v.Choose("at", 3)]
	text := "a0"
	operands := []string{"a0"}
	var ops []string
	for i := 0; i < n; i++ {
		o := ""
		switch {
		case i == at:
			o = anyOp(0, true)
		case v.Case() < len(levels):
			l := levels[v.Case()]
			o = l[i%len(l)]
		default:
			o = allOps[i*7%len(allOps)]
		}
		x := "a" + string([]byte{byte('a' + i)})
		ops = append(ops, o)
		operands = append(operands, x)
		text += " " + o + " " + x
	}
	expectGroups(text, precedence(operands, ops))
}

func LongChainsCases() int { return 11 }

// LongStrings: strings of many pieces.
//
// verif prop=C18 panic=* reach=string
func LongStrings() {
	k := v.Case()
	n := size(70)
	q := []string{"\"", "'"}[v.Choose("quote", 2)]
	p := pieces[k]
	if p.spelled == "" || (p.text == "$" || p.text == "%") {
		return
	}
	b := v.Byte("b")
	v.Assume(v.And(v.And(b != '"', b != '\''), v.And(v.And(b != '$', b != '%'), v.And(b != '\\', b != '{'))))
	x := string([]byte{b})
	body, want := "", ""
	if v.Choose("mixed", 2) == 0 {
		body, want = long(p.text, n)+x, long(p.spelled, n)+x
	} else {
		for i := 0; i < n; i++ {
			r := pieces[(k+i*5)%len(pieces)]
			if r.spelled == "" || r.text == "$" || r.text == "%" {
				continue
			}
			body += r.text
			want += r.spelled
		}
		body += x
		want += x
	}
	text := "r = " + q + body + q + "\nz = 1\n"
	v.ObsStr("text", text)
	s := stringOf(text)
	v.Reach("string")
	v.Assert(s != nil, "C18:a string is accepted")
	if s != nil {
		v.Assert(spell(s) == want, "C18:the pieces of a string spell its content")
	}
}

func LongStringsCases() int { return len(pieces) }

var longLines = []string{"t", "", "\t", "E1", " E", "${x}", "%{x} t", "$${", "\"", "t t t t t t t t", "é", "$"}

// LongHeredocs: heredocs of many lines, and long delimiters.
//
// verif prop=C19 panic=* reach=heredoc
func LongHeredocs() {
	n := size(70)
	delim := []string{"E", "E" + long("O", n)}[v.Choose("delimiter", 2)]
	b := v.Byte("b")
	v.Assume(v.And(v.And(b != '{', b != '$'), v.And(b != '%', b != '\\')))
	body := long(longLines[v.Case()]+"\n", n) + string([]byte{b}) + "\n" + longLines[(v.Case()+1)%len(longLines)]
	checkHeredoc(v.Bool("dash"), delim, body)
}

func LongHeredocsCases() int { return len(longLines) }

// LongNumbers: very long literals, with arbitrary digits at their ends.
//
// verif prop=C17 panic=* reach=number
func LongNumbers() {
	n := size(140)
	f := []struct {
		prefix string
		base   int
		middle string
	}{{"", 10, "0"}, {"", 10, "9"}, {"", 10, "37"}, {"0x", 16, "f0"}, {"0x", 16, "0"}, {"0b", 2, "0"}, {"0b", 2, "1101"}, {"0o", 8, "07"}, {"0", 8, "50"}}[v.Case()]
	a := "1"
	b := string(each(digitsFrom(f.base, 1, 10)))
	m := long(f.middle, n)
	text := f.prefix + a + m + b
	src := text
	if f.prefix == "0" {
		src = "0o" + text[1:]
	}
	expectNumber(text, literal{base: f.base, digits: a + m + b, source: src})
}

func LongNumbersCases() int { return 9 }

var openers = []string{"(", "[", "{a:", "f(", "x[", "\"${", "a?b:", "if a {", "if a {b} else {", "switch a {case b:{", "-", "a+", "a.", "f().", "x[1].", "a {", "'%{", "f(a,", "(a)+(", "<<E\n${"}

// Unclosed: many constructs that are opened and perhaps not closed.
//
// verif prop=C10 panic=C10 PLACES=1 ENDS=2 tier=quick reach=rejected
// verif prop=C10 panic=C10 PLACES=3 ENDS=6 tier=thorough reach=rejected
func Unclosed() {
	n := []int{4, 10}[v.Choose("size", 2)]
	text := []string{"a = ", "b {\nval a = ", "def f() {\n"}[v.Choose("place", v.Param("PLACES"))] + long(openers[v.Case()], n) + string([]byte{v.Byte("b")}) + []string{"", "\n", ")", "]", "}", "1"}[v.Choose("end", v.Param("ENDS"))]
	checkText(text)
}

func UnclosedCases() int { return len(openers) }
