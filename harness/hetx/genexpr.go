package hetx

import (
	"math/big"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// The levels of the expression grammar, from the innermost out.
func mul(u etx.ExprUnary) etx.ExprMultiplicative {
	return etx.ExprMultiplicative{ASTNode: u.ASTNode, Left: u}
}
func add(x etx.ExprMultiplicative) etx.ExprAdditive {
	return etx.ExprAdditive{ASTNode: x.ASTNode, Left: x}
}
func shf(x etx.ExprAdditive) etx.ExprShift      { return etx.ExprShift{ASTNode: x.ASTNode, Left: x} }
func rel(x etx.ExprShift) etx.ExprRelational    { return etx.ExprRelational{ASTNode: x.ASTNode, Left: x} }
func equ(x etx.ExprRelational) etx.ExprEquality { return etx.ExprEquality{ASTNode: x.ASTNode, Left: x} }
func ban(x etx.ExprEquality) etx.ExprBitwiseAnd {
	return etx.ExprBitwiseAnd{ASTNode: x.ASTNode, Left: x}
}
func bxo(x etx.ExprBitwiseAnd) etx.ExprBitwiseXor {
	return etx.ExprBitwiseXor{ASTNode: x.ASTNode, Left: x}
}
func bor(x etx.ExprBitwiseXor) etx.ExprBitwiseOr {
	return etx.ExprBitwiseOr{ASTNode: x.ASTNode, Left: x}
}
func lan(x etx.ExprBitwiseOr) etx.ExprLogicalAnd {
	return etx.ExprLogicalAnd{ASTNode: x.ASTNode, Left: x}
}
func lor(x etx.ExprLogicalAnd) etx.ExprLogicalOr {
	return etx.ExprLogicalOr{ASTNode: x.ASTNode, Left: x}
}
func toLor(u etx.ExprUnary) etx.ExprLogicalOr {
	return lor(lan(bor(bxo(ban(equ(rel(shf(add(mul(u))))))))))
}
func expr(x etx.ExprLogicalOr) *etx.Expr {
	return &etx.Expr{ASTNode: x.ASTNode, Left: &etx.ExprConditional{ASTNode: x.ASTNode, Condition: x}}
}
func unary(p etx.ExprPrimary) etx.ExprUnary {
	return etx.ExprUnary{ASTNode: p.ASTNode, Right: etx.ExprPostfix{ASTNode: p.ASTNode, Value: p}}
}

// binary joins two operands with an operator of a level (0 logical or ... 9 multiplicative).
func binary(level int, a etx.ExprUnary, op string, b etx.ExprUnary) etx.ExprLogicalOr {
	switch level {
	case 0:
		x := toLor(b)
		r := toLor(a)
		r.Op, r.Right = op, &x
		return r
	case 1:
		x := lan(bor(bxo(ban(equ(rel(shf(add(mul(b)))))))))
		r := lan(bor(bxo(ban(equ(rel(shf(add(mul(a)))))))))
		r.Op, r.Right = op, &x
		return lor(r)
	case 2:
		x := bor(bxo(ban(equ(rel(shf(add(mul(b))))))))
		r := bor(bxo(ban(equ(rel(shf(add(mul(a))))))))
		r.Op, r.Right = op, &x
		return lor(lan(r))
	case 3:
		x := bxo(ban(equ(rel(shf(add(mul(b)))))))
		r := bxo(ban(equ(rel(shf(add(mul(a)))))))
		r.Op, r.Right = op, &x
		return lor(lan(bor(r)))
	case 4:
		x := ban(equ(rel(shf(add(mul(b))))))
		r := ban(equ(rel(shf(add(mul(a))))))
		r.Op, r.Right = op, &x
		return lor(lan(bor(bxo(r))))
	case 5:
		x := equ(rel(shf(add(mul(b)))))
		r := equ(rel(shf(add(mul(a)))))
		r.Op, r.Right = op, &x
		return lor(lan(bor(bxo(ban(r)))))
	case 6:
		x := rel(shf(add(mul(b))))
		r := rel(shf(add(mul(a))))
		r.Op, r.Right = op, &x
		return lor(lan(bor(bxo(ban(equ(r))))))
	case 7:
		x := shf(add(mul(b)))
		r := shf(add(mul(a)))
		r.Op, r.Right = op, &x
		return lor(lan(bor(bxo(ban(equ(rel(r)))))))
	case 8:
		x := add(mul(b))
		r := add(mul(a))
		r.Op, r.Right = op, &x
		return lor(lan(bor(bxo(ban(equ(rel(shf(r))))))))
	default:
		x := mul(b)
		r := mul(a)
		r.Op, r.Right = op, &x
		return lor(lan(bor(bxo(ban(equ(rel(shf(add(r)))))))))
	}
}

// levels are the operators by level, the loosest first.
var levels = [][]string{{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}}

// op writes one of the operators of a level.
func (g *gen) op(level int) string {
	ops := levels[level]
	g.picks++
	o := ops[v.Choose("op", len(ops), g.picks)]
	g.raw(o)
	return o
}

const primaries = 18

// literals are number literals: what matters is that they are kept.
var literals = []string{"47", "123_456_789_012", "0x1_fF", "0b1_01", "0o1_7", "1.5e-3", "0.1", "1_000.250_1E+2", "12345678901234567890.5", "1e400", "00.5", ".5"}

// exprForms is the number of constructs an expression can be: operands, with postfix and prefix operators, with a
// binary operator, and the four of expr.
const exprForms = primaries + 5 + 10 + 4

// primary writes an operand.
func (g *gen) primary(alt int) etx.ExprPrimary {
	p := g.pos()
	val := func(x *etx.Value) etx.ExprPrimary {
		x.ASTNode = p
		return etx.ExprPrimary{ASTNode: p, Value: x}
	}
	switch alt {
	case 0:
		return etx.ExprPrimary{ASTNode: p, Ident: &etx.Ident{ASTNode: p, Parts: []string{g.name()}}}
	case 1: // a number
		// What numbers mean is for C17.
		n := "47"
		if v.Param("FULL") == 1 || g.top == 1 {
			n = literals[g.sub(len(literals))]
		}
		g.top = -1
		g.raw(n)
		return val(&etx.Value{Number: &etx.ValueNumber{ASTNode: p, Source: n, Value: big.NewFloat(47)}})
	case 2: // a string
		return val(&etx.Value{Str: g.str(0)})
	case 3:
		return val(&etx.Value{Str: g.str(1 + g.sub(8))})
	case 4:
		g.t("true")
		return val(&etx.Value{Bool: &etx.ValueBool{ASTNode: p, Value: true}})
	case 5:
		g.t("false")
		return val(&etx.Value{Bool: &etx.ValueBool{ASTNode: p, Value: false}})
	case 6:
		g.t("null")
		return val(&etx.Value{Null: true})
	case 7: // a list
		return val(&etx.Value{List: g.list([]int{1, 2, 4}[g.var1(3)])})
	case 8:
		return val(&etx.Value{List: g.list(0)})
	case 9: // a map
		return val(&etx.Value{Map: g.mapp([]int{1, 2, 4}[g.var1(3)])})
	case 10:
		return val(&etx.Value{Map: g.mapp(0)})
	case 11: // a dotted name
		id := &etx.Ident{ASTNode: p, Parts: []string{g.name()}}
		for k := 1 + 2*g.var1(2); k > 0; k-- {
			g.t(".")
			id.Parts = append(id.Parts, g.name())
		}
		return etx.ExprPrimary{ASTNode: p, Ident: id}
	case 12: // a call
		out := etx.ExprPrimary{ASTNode: p, Ident: &etx.Ident{ASTNode: p, Parts: []string{g.name()}}}
		out.Monads = []*etx.ExprInvocationParams{g.args([]int{0, 1, 2, 4}[g.var1(4)])}
		return out
	case 13: // two calls
		out := etx.ExprPrimary{ASTNode: p, Ident: &etx.Ident{ASTNode: p, Parts: []string{g.name()}}}
		out.Monads = []*etx.ExprInvocationParams{g.args(1)}
		for k := []int{0, 1, 3}[g.var1(3)]; k >= 0; k-- {
			out.Monads = append(out.Monads, g.args(0))
		}
		return out
	case 14: // a call and an access
		out := etx.ExprPrimary{ASTNode: p, Ident: &etx.Ident{ASTNode: p, Parts: []string{g.name()}}}
		out.Monads = []*etx.ExprInvocationParams{g.args(g.var1(2))}
		g.t(".")
		q := g.postfix(g.var1(chained))
		out.Post = &q
		return out
	case 15: // parentheses
		g.t("(")
		g.no()
		out := etx.ExprPrimary{ASTNode: p, SubExpression: g.expr()}
		g.no()
		g.t(")")
		return out
	case 16: // parentheses around an operation
		g.t("(")
		a := g.unary()
		g.sp()
		o := g.op(8)
		g.sp()
		out := etx.ExprPrimary{ASTNode: p, SubExpression: expr(binary(8, a, o, g.unary()))}
		g.t(")")
		return out
	default: // a heredoc
		return val(&etx.Value{Heredoc: g.heredoc()})
	}
}

// var1 chooses among the variants of a construct; with a small budget, the others are deviations from the first.
func (g *gen) var1(n int) int {
	if v.Param("FULL") == 1 {
		return g.sub(n)
	}
	return g.pick(n)
}

// sub chooses among the variants of a construct.
func (g *gen) sub(n int) int {
	g.picks++
	return v.Choose("sub", n, g.picks)
}

func (g *gen) dot(s string) string {
	g.t(".")
	return s
}

func (g *gen) args(n int) *etx.ExprInvocationParams {
	g.t("(")
	g.no()
	out := &etx.ExprInvocationParams{ASTNode: g.pos()}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
			g.sp()
		}
		out.Values = append(out.Values, g.expr())
	}
	g.no()
	if n == 0 {
		out.ASTNode = g.pos()
	}
	g.t(")")
	return out
}

// chained is the number of operands that postfix writes.
const chained = 11

// postfix writes the operand after a dot: a name, a call, a name with an index, or any other operand.
func (g *gen) postfix(alt int) etx.ExprPostfix {
	p := g.pos()
	switch alt {
	case 0:
		return etx.ExprPostfix{ASTNode: p, Value: g.primary(0)}
	case 1:
		return etx.ExprPostfix{ASTNode: p, Value: g.primary(12)}
	case 2:
		out := etx.ExprPostfix{ASTNode: p, Value: g.primary(0)}
		g.t("[")
		out.Index = g.expr()
		g.t("]")
		return out
	case 3: // a longer chain
		out := etx.ExprPostfix{ASTNode: p, Value: g.primary(0)}
		g.t("[")
		out.Index = g.expr()
		g.t("].")
		q := etx.ExprPostfix{ASTNode: g.pos(), Value: g.primary(12)}
		out.Post = &q
		return out
	case 4: // a number, which does not stand directly behind the dot
		g.t(" ")
		p = g.pos()
		return etx.ExprPostfix{ASTNode: p, Value: g.primary(1)}
	default:
		return etx.ExprPostfix{ASTNode: p, Value: g.primary([]int{11, 2, 4, 7, 16, 9}[alt-5])}
	}
}

// unary writes an operand with its postfix and prefix operators.
func (g *gen) unary() etx.ExprUnary {
	p := g.pos()
	alt := 0
	if g.force >= 0 && g.force < primaries+5 {
		alt, g.force = g.force, -1
		g.top = alt
	} else if g.full {
		alt = g.pick(primaries + 5)
	} else {
		alt = []int{0, 1, 3, 9, 12, 15, primaries + 1}[g.pick(7)]
	}
	if alt < primaries {
		return unary(g.primary(alt))
	}
	switch alt - primaries {
	case 0: // an index
		out := etx.ExprUnary{ASTNode: p, Right: etx.ExprPostfix{ASTNode: p, Value: g.primary(0)}}
		g.no()
		g.t("[")
		g.no()
		out.Right.Index = g.expr()
		g.t("]")
		return out
	case 1: // an index and an access
		out := etx.ExprUnary{ASTNode: p, Right: etx.ExprPostfix{ASTNode: p, Value: g.primary(12 * g.var1(2))}}
		g.t("[")
		out.Right.Index = g.expr()
		g.t("].")
		q := g.postfix(g.var1(chained))
		out.Right.Post = &q
		return out
	case 2: // an access of a value
		out := etx.ExprUnary{ASTNode: p, Right: etx.ExprPostfix{ASTNode: p, Value: g.primary([]int{2, 7, 9, 16}[g.var1(4)])}}
		g.t(".")
		q := g.postfix(g.var1(chained))
		out.Right.Post = &q
		return out
	case 3: // a prefix operator
		o := []string{"-", "!", "~", "+"}[g.var1(4)]
		g.raw(o)
		g.no()
		q := g.pos()
		return etx.ExprUnary{ASTNode: p, Op: o, Right: etx.ExprPostfix{ASTNode: q, Value: g.primary(0)}}
	default: // a prefix operator of a call with an access
		o := []string{"-", "!", "~", "+"}[g.var1(4)]
		g.raw(o)
		q := g.pos()
		return etx.ExprUnary{ASTNode: p, Op: o, Right: etx.ExprPostfix{ASTNode: q, Value: g.primary(14)}}
	}
}

// condition writes an expression without ternary.
func (g *gen) condition() etx.ExprLogicalOr {
	alt := 0
	if g.force >= primaries+5 && g.force < exprForms-4 {
		alt, g.force = g.force-primaries-4, -1
	} else if g.force < 0 && g.full {
		alt = g.pick(1 + len(levels))
	} else if g.force < 0 {
		alt = []int{0, 9, 1}[g.pick(3)]
	}
	if alt == 0 {
		return toLor(g.unary())
	}
	a := g.unary()
	g.gap()
	o := g.op(alt - 1)
	g.gap()
	return binary(alt-1, a, o, g.unary())
}

// expr writes an expression.
func (g *gen) expr() *etx.Expr {
	p := g.pos()
	alt := 0
	vr := g.var1
	if g.force >= exprForms-4 {
		alt, g.force = g.force-exprForms+5, -1
		vr = g.sub
	} else if g.force < 0 {
		alt = g.pick(5)
	}
	switch alt {
	case 0:
		return expr(g.condition())
	case 1: // conditional
		out := &etx.Expr{ASTNode: p, Left: &etx.ExprConditional{ASTNode: p, Condition: g.condition(), ConditionOp: true}}
		g.sp()
		g.t("?")
		g.sp()
		out.Left.TrueExpr = g.expr()
		g.sp()
		g.t(":")
		g.sp()
		out.Left.FalseExpr = g.expr()
		return out
	case 2: // if
		return &etx.Expr{ASTNode: p, If: g.iff(vr(4))}
	case 3:
		return &etx.Expr{ASTNode: p, Switch: g.swit(vr(2))}
	default:
		return &etx.Expr{ASTNode: p, Switch: g.swit(2)}
	}
}

func (g *gen) iff(alt int) *etx.ExprIf {
	out := &etx.ExprIf{ASTNode: g.pos()}
	g.t("if")
	g.gap()
	out.Condition = g.condition()
	g.gap()
	g.nl()
	g.t("{")
	g.nl()
	g.sp()
	if alt&1 == 0 {
		out.Left = g.expr()
	}
	g.sp()
	g.nl()
	g.t("}")
	g.sp()
	if alt&2 != 0 {
		g.nl()
		g.t("else")
		g.sp()
		g.t("{")
		g.nl()
		g.sp()
		out.Right = g.expr()
		g.sp()
		g.nl()
		g.t("}")
	}
	return out
}

func (g *gen) swit(n int) *etx.ExprSwitch {
	out := &etx.ExprSwitch{ASTNode: g.pos()}
	g.t("switch")
	g.gap()
	out.Selector = g.condition()
	g.gap()
	g.nl()
	g.t("{")
	g.nl()
	for i := 0; i < n; i++ {
		g.sp()
		c := &etx.ExprCase{ASTNode: g.pos()}
		if i == 1 {
			c.Default = true
			g.t("default")
			g.no()
		} else {
			g.t("case")
			g.gap()
			k := []int{1, 2, 4}[g.var1(3)]
			for j := 0; j < k; j++ {
				if j > 0 {
					g.t(",")
					g.sp()
				}
				x := g.condition()
				c.Conditions = append(c.Conditions, &x)
			}
			g.no()
		}
		g.t(":")
		g.sp()
		g.nl()
		g.t("{")
		g.sp()
		g.nl()
		c.Expr = g.expr()
		g.sp()
		g.nl()
		g.t("}")
		g.nl()
		out.Cases = append(out.Cases, c)
	}
	g.sp()
	g.t("}")
	return out
}

// str writes a string.
func (g *gen) str(alt int) *etx.ValueString {
	out := &etx.ValueString{ASTNode: g.pos()}
	q := byte('"')
	if alt == 8 || alt == 4 {
		q = '\''
	}
	g.c(q)
	text := func(s string) {
		out.Fragment = append(out.Fragment, &etx.StringFragment{ASTNode: g.pos(), Text: s})
		g.t("")
		g.raw1(s)
	}
	switch alt {
	case 0:
		text("s" + string([]byte{g.one('a', 'z')}))
	case 1: // empty
	case 2: // an expression
		text("é ")
		f := &etx.StringFragment{ASTNode: g.pos()}
		g.t("${")
		g.no()
		f.Expr = g.expr()
		g.no()
		g.t("}")
		out.Fragment = append(out.Fragment, f)
		text("t")
	case 3: // a directive
		f := &etx.StringFragment{ASTNode: g.pos()}
		g.t("%{")
		f.Directive = g.expr()
		g.no()
		g.t("}")
		out.Fragment = append(out.Fragment, f)
	case 4: // the other quote
		text("a")
		text("\"")
		text("b")
	case 5:
		text("it")
		text("'")
	case 6: // escapes
		f := &etx.StringFragment{ASTNode: g.pos(), Escaped: "\\" + string([]byte{g.one('n', 't')})}
		g.raw(f.Escaped)
		out.Fragment = append(out.Fragment, f)
		f = &etx.StringFragment{ASTNode: g.pos(), Unicode: "00e" + string([]byte{g.one('0', '9')})}
		g.raw("\\u" + f.Unicode)
		out.Fragment = append(out.Fragment, f)
		text("z")
	case 7: // markers
		text("$${")
		text("m")
		text("%%{")
	case 8: // a string within a string
		f := &etx.StringFragment{ASTNode: g.pos()}
		g.t("${")
		f.Expr = expr(toLor(unary(g.primary(2))))
		g.t("}")
		out.Fragment = append(out.Fragment, f)
		text(" $")
		out.Fragment = out.Fragment[:len(out.Fragment)-1]
		out.Fragment = append(out.Fragment, &etx.StringFragment{ASTNode: back(g.pos(), 2), Text: " "}, &etx.StringFragment{ASTNode: back(g.pos(), 1), Text: "$"})
	}
	if alt == 6 {
		// "\u" + 'n'..'t' may not read as the start of a unicode escape: 'u' is outside the range
	}
	g.c(q)
	return out
}

func back(n etx.ASTNode, k int) etx.ASTNode {
	n.Pos.Offset -= k
	n.Pos.Column -= k
	return n
}

// raw1 writes text without line breaks, counting characters.
func (g *gen) raw1(s string) {
	for i := 0; i < len(s); i++ {
		g.b = append(g.b, s[i])
		if c := s[i]; c < 0x80 || c >= 0xc0 {
			g.col++
		}
	}
}

func (g *gen) heredoc() *etx.Heredoc {
	out := &etx.Heredoc{ASTNode: g.pos()}
	alt := g.sub(4)
	g.t("<<")
	if alt == 1 {
		g.t("-")
		out.Delimiter.LeadingTabs = true
	}
	g.t("EOF\n")
	out.Delimiter.Delimiter = "EOF"
	text := func(s string) {
		out.Fragments = append(out.Fragments, &etx.HeredocFragment{ASTNode: g.pos(), Text: s})
		g.t(s)
	}
	switch alt {
	case 0:
		text("one\n")
	case 1:
	case 2:
		p := g.pos()
		n := len(g.b)
		g.t("é ")
		g.c(g.one('a', 'z'))
		g.t("\n\n $${ ")
		out.Fragments = append(out.Fragments, &etx.HeredocFragment{ASTNode: p, Text: string(g.b[n:])})
		f := &etx.HeredocFragment{ASTNode: g.pos()}
		g.t("${")
		f.Expr = g.expr()
		g.no()
		g.t("}")
		out.Fragments = append(out.Fragments, f)
		text("\nEOFX\n")
	case 3:
		text("two\n")
		f := &etx.HeredocFragment{ASTNode: g.pos()}
		g.t("%{")
		g.no()
		f.Directive = g.expr()
		g.t("}")
		out.Fragments = append(out.Fragments, f)
		text("\n")
	}
	g.t("EOF")
	return out
}

func (g *gen) list(n int) *etx.ValueList {
	out := &etx.ValueList{ASTNode: g.pos()}
	g.t("[")
	g.nl()
	put := func() {
		if c := g.comment(); c != nil {
			out.Items = append(out.Items, &etx.ListItem{ASTNode: c.ASTNode, Comment: c})
		}
	}
	put()
	for i := 0; i < n; i++ {
		p := g.pos()
		out.Items = append(out.Items, &etx.ListItem{ASTNode: p, Value: g.expr()})
		g.no()
		switch {
		case i+1 < n:
			switch g.layout(4) {
			case 0:
				g.t(", ")
			case 1:
				g.t("\n")
			case 2:
				g.t(",\n\n")
			case 3:
				g.t(",")
			}
		default:
			switch g.layout(4) {
			case 1:
				g.t(",")
			case 2:
				g.t(",\n")
			case 3:
				g.t("\n")
			}
		}
		put()
	}
	g.t("]")
	return out
}

func (g *gen) mapp(n int) *etx.ValueMap {
	out := &etx.ValueMap{ASTNode: g.pos()}
	g.t("{")
	g.nl()
	put := func() {
		if c := g.comment(); c != nil {
			out.Items = append(out.Items, &etx.MapItem{ASTNode: c.ASTNode, Comment: c})
		}
	}
	put()
	for i := 0; i < n; i++ {
		p := g.pos()
		it := &etx.MapItem{ASTNode: p, Key: &etx.MapKey{ASTNode: p}}
		switch g.pick(3) {
		case 0:
			it.Key.Ident = &etx.Ident{ASTNode: p, Parts: []string{g.name()}}
		case 1:
			it.Key.Str = g.str(0)
		default:
			it.Key.Ident = &etx.Ident{ASTNode: p, Parts: []string{g.dot(g.name()), g.name()}}
		}
		g.no()
		if g.pick(2) == 0 {
			g.t(":")
		} else {
			g.t("=")
		}
		g.sp()
		it.Value = g.expr()
		out.Items = append(out.Items, it)
		g.no()
		switch g.layout(4) {
		case 0:
			g.t(",\n")
		case 1:
			g.t("\n")
		case 2:
			g.t(", ")
		case 3:
			g.t(",\n\n")
		}
		put()
	}
	g.t("}")
	return out
}
