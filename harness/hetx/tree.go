package hetx

import (
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
)

var (
	astNodeType = reflect.TypeOf(etx.ASTNode{})
	floatType   = reflect.TypeOf(big.Float{})
)

// nodeOf gives the node a struct value is, if it is one.
func nodeOf(s reflect.Value) (etx.Node, bool) {
	if !s.CanAddr() {
		return nil, false
	}
	n, ok := s.Addr().Interface().(etx.Node)
	return n, ok
}

// placeholder tells whether field f of struct s is an embedded node that stands for nothing (the value of an enum
// item that is a comment or a blank line).
func placeholder(s reflect.Value, f string) bool {
	switch x := s.Addr().Interface().(type) {
	case *etx.TypeEnumItem:
		return f == "Value" && (x.Comment != nil || x.EmptyLine != "")
	case *etx.TypeObjectItem:
		return f == "Type" && (x.Comment != nil || x.EmptyLine != "")
	}
	return false
}

// direct calls f for every node directly contained in struct s, in field order.
func direct(s reflect.Value, f func(field string, n etx.Node, c reflect.Value)) {
	t := s.Type()
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i)
		if ft.Type == astNodeType {
			continue
		}
		x := s.Field(i)
		switch x.Kind() {
		case reflect.Ptr:
			if x.IsNil() || ft.Type.Elem() == floatType {
				continue
			}
			if n, ok := nodeOf(x.Elem()); ok {
				f(ft.Name, n, x.Elem())
			}
		case reflect.Struct:
			if n, ok := nodeOf(x); ok {
				f(ft.Name, n, x)
			}
		case reflect.Slice:
			if ft.Type.Elem().Kind() != reflect.Ptr {
				continue
			}
			for k := 0; k < x.Len(); k++ {
				if x.Index(k).IsNil() {
					continue
				}
				if n, ok := nodeOf(x.Index(k).Elem()); ok {
					f(ft.Name, n, x.Index(k).Elem())
				}
			}
		}
	}
}

// visit calls f for every node below struct s, depth first. real is false below placeholders.
func visit(s reflect.Value, parent etx.Node, real bool, f func(n, parent etx.Node, s reflect.Value, real bool)) {
	direct(s, func(field string, n etx.Node, c reflect.Value) {
		r := real && !placeholder(s, field)
		f(n, parent, c, r)
		visit(c, n, r, f)
	})
}

// all calls f for every node of a parsed tree.
func all(ast *etx.AST, f func(n, parent etx.Node, s reflect.Value, real bool)) {
	for _, it := range ast.Items {
		s := reflect.ValueOf(it).Elem()
		f(it, nil, s, true)
		visit(s, it, true, f)
	}
}

// A dumper writes a tree out as text: two trees are equal exactly when their texts are.
type dumper struct {
	sb      strings.Builder
	pos     bool // with positions
	meaning bool // without blank lines, comments and parentheses around single operands
}

func (d *dumper) str(s string) { d.sb.WriteString(s) }

// quoted writes a string with its length, so that its end is known.
func (d *dumper) quoted(s string) {
	d.str(strconv.Itoa(len(s)) + ":")
	d.str(s)
	d.str(" ")
}

func (d *dumper) node(s reflect.Value) {
	t := s.Type()
	if d.meaning {
		switch x := s.Addr().Interface().(type) {
		case *etx.ExprPrimary:
			if x.SubExpression != nil {
				if p := operand(x.SubExpression); p != nil {
					d.node(reflect.ValueOf(p).Elem())
					return
				}
			}
		case *etx.ValueNumber:
			d.str("#" + x.Source)
			return
		case *etx.Ident:
			// a dotted name
		}
	}
	d.str(t.Name())
	d.str("{")
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i)
		x := s.Field(i)
		if ft.Type == astNodeType {
			if d.pos {
				p := x.Addr().Interface().(*etx.ASTNode).Pos
				d.str("@" + strconv.Itoa(p.Offset) + "," + strconv.Itoa(p.Line) + "," + strconv.Itoa(p.Column) + p.Filename)
			}
			continue
		}
		if d.meaning && (ft.Name == "EmptyLine" || ft.Name == "Comment") {
			continue
		}
		switch x.Kind() {
		case reflect.Bool:
			if x.Bool() {
				d.str(ft.Name + " ")
			}
		case reflect.String:
			if x.Len() > 0 {
				d.str(ft.Name + "=")
				d.quoted(x.String())
			}
		case reflect.Ptr:
			if x.IsNil() {
				continue
			}
			d.str(ft.Name + ":")
			if ft.Type.Elem() == floatType {
				f := x.Interface().(*big.Float)
				d.str(f.Text('p', 0) + "/" + strconv.Itoa(int(f.Prec())))
			} else {
				d.node(x.Elem())
			}
		case reflect.Struct:
			if placeholder(s, ft.Name) {
				continue
			}
			d.str(ft.Name + ":")
			d.node(x)
		case reflect.Slice:
			if x.Len() == 0 {
				continue
			}
			d.str(ft.Name + "[")
			for k := 0; k < x.Len(); k++ {
				y := x.Index(k)
				if y.Kind() == reflect.String {
					d.quoted(y.String())
				} else if y.IsNil() {
					d.str("nil")
				} else if d.meaning && layout(y.Interface()) {
					continue
				} else {
					d.node(y.Elem())
				}
				d.str(";")
			}
			d.str("]")
		}
	}
	d.str("}")
}

// layout tells whether a list item is only a blank line or a comment.
func layout(x any) bool {
	switch y := x.(type) {
	case *etx.RootItem:
		return y.EmptyLine != "" || y.Comment != nil
	case *etx.BlockItem:
		return y.EmptyLine != "" || y.Comment != nil
	case *etx.FuncStatement:
		return y.EmptyLine != "" || y.Comment != nil
	case *etx.ListItem:
		return y.EmptyLine != "" || y.Comment != nil
	case *etx.MapItem:
		return y.EmptyLine != "" || y.Comment != nil
	case *etx.TypeEnumItem:
		return y.EmptyLine != "" || y.Comment != nil
	case *etx.TypeObjectItem:
		return y.EmptyLine != "" || y.Comment != nil
	}
	return false
}

// operand gives the primary expression that an expression consists of, if it has no operator, index or access.
func operand(e *etx.Expr) *etx.ExprPrimary {
	if e.Left == nil || e.Left.ConditionOp {
		return nil
	}
	or := &e.Left.Condition
	and := &or.Left
	bo := &and.Left
	bx := &bo.Left
	ba := &bx.Left
	eq := &ba.Left
	re := &eq.Left
	sh := &re.Left
	ad := &sh.Left
	mu := &ad.Left
	un := &mu.Left
	po := &un.Right
	if or.Op != "" || and.Op != "" || bo.Op != "" || bx.Op != "" || ba.Op != "" || eq.Op != "" || re.Op != "" || sh.Op != "" ||
		ad.Op != "" || mu.Op != "" || un.Op != "" || po.Index != nil || po.Post != nil {
		return nil
	}
	return &po.Value
}

func dumpAST(ast *etx.AST, pos, meaning bool) string {
	d := &dumper{pos: pos, meaning: meaning}
	for _, it := range ast.Items {
		if meaning && layout(it) {
			continue
		}
		d.node(reflect.ValueOf(it).Elem())
		d.str("\n")
	}
	return d.sb.String()
}

func dumpNode(n any, pos, meaning bool) string {
	d := &dumper{pos: pos, meaning: meaning}
	d.node(reflect.ValueOf(n).Elem())
	return d.sb.String()
}
