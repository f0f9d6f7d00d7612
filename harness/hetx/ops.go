package hetx

import (
	"reflect"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// grouping writes an expression with all its groups in parentheses; operators of one level, which nest one way or the
// other, are one group.
func grouping(s reflect.Value) string {
	switch x := s.Addr().Interface().(type) {
	case *etx.Expr:
		switch {
		case x.If != nil:
			out := "(if " + groupingOf(&x.If.Condition)
			if x.If.Left != nil {
				out += " then " + groupingOf(x.If.Left)
			}
			if x.If.Right != nil {
				out += " else " + groupingOf(x.If.Right)
			}
			return out + ")"
		case x.Switch != nil:
			return "(switch " + groupingOf(&x.Switch.Selector) + ")"
		case x.Left != nil:
			return groupingOf(x.Left)
		}
		return "?"
	case *etx.ExprConditional:
		c := groupingOf(&x.Condition)
		if !x.ConditionOp {
			return c
		}
		if x.TrueExpr == nil || x.FalseExpr == nil {
			return "?"
		}
		return "(" + c + "?" + groupingOf(x.TrueExpr) + ":" + groupingOf(x.FalseExpr) + ")"
	case *etx.ExprUnary:
		if x.Op != "" {
			return "(" + x.Op + groupingOf(&x.Right) + ")"
		}
		return groupingOf(&x.Right)
	case *etx.ExprPostfix:
		out := groupingOf(&x.Value)
		if x.Index != nil {
			out = "(" + out + "[" + groupingOf(x.Index) + "])"
		}
		if x.Post != nil {
			out = "(" + out + "." + groupingOf(x.Post) + ")"
		}
		return out
	case *etx.ExprPrimary:
		switch {
		case x.SubExpression != nil:
			return groupingOf(x.SubExpression)
		case x.Value != nil:
			return x.Value.FormattedString()
		case x.Ident == nil:
			return "?"
		}
		out := strings.Join(x.Ident.Parts, "~")
		for _, m := range x.Monads {
			out = "(" + out + "("
			for i, a := range m.Values {
				if i > 0 {
					out += ","
				}
				out += groupingOf(a)
			}
			out += "))"
		}
		if x.Post != nil {
			out = "(" + out + "." + groupingOf(x.Post) + ")"
		}
		return out
	}
	// a binary level
	if s.FieldByName("Op").String() == "" {
		return grouping(s.FieldByName("Left"))
	}
	out := "("
	for {
		out += grouping(s.FieldByName("Left"))
		op := s.FieldByName("Op").String()
		if op == "" {
			break
		}
		out += op
		r := s.FieldByName("Right")
		if r.Kind() == reflect.Ptr {
			if r.IsNil() {
				out += "?"
				break
			}
			r = r.Elem()
		}
		if r.Type() != s.Type() {
			out += grouping(r)
			break
		}
		s = r
	}
	return out + ")"
}

func groupingOf(p any) string { return grouping(reflect.ValueOf(p).Elem()) }

// precedence groups operands and operators by the documented table, with operators of one level in one group.
func precedence(operands, ops []string) string {
	if len(ops) == 0 {
		return operands[0]
	}
	for _, level := range levels { // the loosest first
		var parts, at []string
		from := 0
		for i, o := range ops {
			in := false
			for _, l := range level {
				if l == o {
					in = true
				}
			}
			if in {
				parts = append(parts, precedence(operands[from:i+1], ops[from:i]))
				at = append(at, o)
				from = i + 1
			}
		}
		if from == 0 {
			continue
		}
		parts = append(parts, precedence(operands[from:], ops[from:]))
		out := "(" + parts[0]
		for i := range at {
			out += at[i] + parts[i+1]
		}
		return out + ")"
	}
	return "?"
}

var allOps = func() []string {
	var out []string
	for _, l := range levels {
		out = append(out, l...)
	}
	return out
}()

const numOps = 18

// anyOp chooses an operator; in a short list, one of each level.
func anyOp(i int, short bool) string {
	if short {
		l := levels[v.Choose("level", len(levels), i)]
		return l[i%len(l)]
	}
	return allOps[v.Choose("op", len(allOps), i)]
}

// valueOf parses "r = text" and gives the grouping of the value.
func valueOf(text string) (string, bool) {
	v.ObsStr("text", text)
	ast, err := etx.ParseString("r = " + text + "\n")
	if err != nil || len(ast.Items) != 1 || ast.Items[0].Attribute == nil || ast.Items[0].Attribute.Value == nil {
		return "", false
	}
	return groupingOf(ast.Items[0].Attribute.Value), true
}

func expectGroups(text, want string) {
	got, ok := valueOf(text)
	v.ObsStr("groups", got)
	v.Reach("parsed")
	v.Assert(ok, "C15:the expression is accepted")
	v.Assert(got == want, "C15:operators group by the documented precedence")
}

// Chains: a op b op c, for all operators.
//
//verif prop=C15 panic=* OPS=2 SHORT=0 reach=parsed
//verif prop=C15 panic=* OPS=3 SHORT=0 reach=parsed
//verif prop=C15 panic=* OPS=4 SHORT=0 tier=thorough reach=parsed
func Chains() {
	n := v.Param("OPS")
	names := []string{"a", "b", "c", "d", "e"}
	for i := range names {
		x := v.Byte("name", i)
		v.Assume(v.And(x >= 'a', x <= 'z'))
		names[i] = names[i] + string([]byte{x})
	}
	text := names[0]
	var ops []string
	for i := 0; i < n; i++ {
		var o string
		switch {
		case i > 0:
			o = anyOp(i, v.Param("SHORT") == 1)
		case v.Param("SHORT") == 1:
			if v.Case() >= len(levels) {
				return
			}
			o = levels[v.Case()][0]
		default:
			o = allOps[v.Case()]
		}
		ops = append(ops, o)
		text += " " + o + " " + names[i+1]
	}
	expectGroups(text, precedence(names[:n+1], ops))
}

func ChainsCases() int { return numOps }

// decorated gives an operand with postfix operators, accesses, calls, and what it groups as.
func decorated(k int, n string) (string, string) {
	switch k {
	case 0:
		return n, n
	case 1:
		return n + "[i]", "(" + n + "[i])"
	case 2:
		return n + "(j, k)", "(" + n + "(j,k))"
	case 3:
		return n + "[i].p", "((" + n + "[i]).p)"
	case 4:
		return n + "().p", "((" + n + "()).p)"
	case 5:
		return n + "[i].p[q]", "((" + n + "[i]).(p[q]))"
	case 6:
		return n + "(x + y * z)", "(" + n + "((x+(y*z))))"
	case 7:
		return n + "[x + y * z]", "(" + n + "[(x+(y*z))])"
	case 8:
		return "(" + n + ")", n
	case 9:
		return "(" + n + " + p)", "(" + n + "+p)"
	case 10:
		return "(" + n + " ? p : q)", "(" + n + "?p:q)"
	case 11:
		return "(" + n + " || p).x", "((" + n + "||p).x)"
	case 12:
		return "(" + n + " * p)[i]", "((" + n + "*p)[i])"
	case 13:
		return n + "(j)(k)", "((" + n + "(j))(k))"
	}
	return "(-" + n + ")", "(-" + n + ")"
}

const decorations = 15

// Operands: prefix and postfix operators bind more tightly than any binary one.
//
//verif prop=C15 panic=* reach=parsed
func Operands() {
	un := []string{"", "-", "!", "~"}
	k := v.Case()
	o := anyOp(1, true)
	u, w := un[v.Choose("u", 4, 1)], un[v.Choose("u", 4, 2)]
	a, ga := decorated(k, "a")
	b, gb := "b", "b"
	if v.Choose("d", 2, 1) == 1 {
		a, ga, b, gb = "a", "a", a, ga
		a, b = "c", b
		ga = "c"
	}
	if u != "" {
		a, ga = u+a, "("+u+ga+")"
	}
	if w != "" {
		b, gb = w+b, "("+w+gb+")"
	}
	expectGroups(a+" "+o+" "+b, precedence([]string{ga, gb}, []string{o}))
}

func OperandsCases() int { return decorations }

// Parens: parentheses override precedence.
//
//verif prop=C15 panic=* reach=parsed
func Parens() {
	p, q := allOps[v.Case()], anyOp(1, false)
	switch v.Choose("form", 3) {
	case 0:
		expectGroups("(a "+p+" b) "+q+" c", "((a"+p+"b)"+q+"c)")
	case 1:
		expectGroups("a "+p+" (b "+q+" c)", "(a"+p+"(b"+q+"c))")
	case 2:
		expectGroups("-(a "+p+" b) "+q+" c", "((-(a"+p+"b))"+q+"c)")
	}
}

func ParensCases() int { return numOps }

// Ternaries: the conditional operator binds least and groups to the right.
//
//verif prop=C15 panic=* reach=parsed
func Ternaries() {
	p := allOps[v.Case()]
	q := anyOp(1, true)
	pq := precedence([]string{"a", "b", "c"}, []string{p, q})
	x := "a " + p + " b " + q + " c"
	switch v.Choose("form", 7) {
	case 0:
		expectGroups(x+" ? d : e", "("+pq+"?d:e)")
	case 1:
		expectGroups("d ? "+x+" : e", "(d?"+pq+":e)")
	case 2:
		expectGroups("d ? e : "+x, "(d?e:"+pq+")")
	case 3:
		expectGroups("d ? e : "+x+" ? f : g", "(d?e:("+pq+"?f:g))")
	case 4:
		expectGroups("d ? e ? f : g : "+x, "(d?(e?f:g):"+pq+")")
	case 5:
		expectGroups("(d ? e : f) "+p+" b "+q+" c", strings.Replace(pq, "a", "(d?e:f)", 1))
	case 6:
		expectGroups("if "+x+" { d "+p+" e } else { f }", "(if "+pq+" then (d"+p+"e) else f)")
	}
}

func TernariesCases() int { return numOps }
