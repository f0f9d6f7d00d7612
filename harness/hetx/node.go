package hetx

import (
	"math/big"
	"reflect"
	"strconv"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// A nodeType is one of the types of nodes: how to make one, to clone one and to clone an absent one.
type nodeType struct {
	make   func() any
	clone  func(any) any
	absent func() bool
}

func nt[T any, P interface {
	*T
	Clone() *T
}]() nodeType {
	return nodeType{
		make:   func() any { return new(T) },
		clone:  func(n any) any { return P(n.(*T)).Clone() },
		absent: func() bool { var p P; return p.Clone() == nil },
	}
}

// nodeTypes are all the types of nodes.
var nodeTypes = []nodeType{
	nt[etx.RootItem](), nt[etx.ParameterType](), nt[etx.FuncSignature](), nt[etx.Attribute](), nt[etx.Block](), nt[etx.BlockItem](), nt[etx.Comment](), nt[etx.Decl](),
	nt[etx.Expr](), nt[etx.ExprIf](), nt[etx.ExprSwitch](), nt[etx.ExprCase](), nt[etx.ExprConditional](), nt[etx.ExprLogicalOr](), nt[etx.ExprLogicalAnd](), nt[etx.ExprBitwiseOr](),
	nt[etx.ExprBitwiseXor](), nt[etx.ExprBitwiseAnd](), nt[etx.ExprEquality](), nt[etx.ExprRelational](), nt[etx.ExprShift](), nt[etx.ExprAdditive](), nt[etx.ExprMultiplicative](),
	nt[etx.ExprUnary](), nt[etx.ExprPostfix](), nt[etx.ExprPrimary](), nt[etx.ExprInvocationParams](), nt[etx.Func](), nt[etx.FuncParameter](), nt[etx.FuncStatement](), nt[etx.FuncDecl](),
	nt[etx.Ident](), nt[etx.Lambda](), nt[etx.LambdaParameter](), nt[etx.Type](), nt[etx.TypeEnum](), nt[etx.TypeEnumItem](), nt[etx.TypeObject](), nt[etx.TypeObjectItem](),
	nt[etx.Value](), nt[etx.ValueBool](), nt[etx.ValueNumber](), nt[etx.Heredoc](), nt[etx.HeredocFragment](), nt[etx.ValueString](), nt[etx.StringFragment](), nt[etx.ValueList](),
	nt[etx.ListItem](), nt[etx.ValueMap](), nt[etx.MapItem](), nt[etx.MapKey](), nt[etx.AST](),
}

// alternatives are the types whose parts exclude one another.
func alternatives(n any) bool {
	switch n.(type) {
	case *etx.RootItem, *etx.Expr, *etx.MapKey, *etx.ParameterType:
		return true
	}
	return false
}

type builder struct {
	count int
	other etx.Node // the parent of every node
}

// fill sets the parts of a struct: at depth 0, any of them; below, all of them down to some depth.
func (b *builder) fill(s reflect.Value, depth, max int) {
	t := s.Type()
	exclusive := alternatives(s.Addr().Interface())
	one := -1
	if exclusive && depth > 0 {
		one = 1 + b.count%(t.NumField()-1) // any one of the parts
	}
	if exclusive && depth == 0 {
		one = v.Choose("part", t.NumField())
	}
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i)
		x := s.Field(i)
		b.count++
		if ft.Type == astNodeType {
			a := x.Addr().Interface().(*etx.ASTNode)
			a.Pos = etx.Position{Filename: "f", Offset: b.count, Line: b.count + 1, Column: b.count + 2}
			a.Parent = b.other
			continue
		}
		present := depth < max
		if exclusive {
			present = one == i && depth < max
		}
		if x.Kind() == reflect.Struct {
			b.fill(x, depth+1, max)
			continue
		}
		if x.Kind() == reflect.Slice {
			n := 2
			if depth == 0 {
				n = v.Choose("length", 3, i)
			} else if !present {
				n = 0
			}
			if n == 0 {
				continue
			}
			x.Set(reflect.MakeSlice(ft.Type, n, n))
			for k := 0; k < n; k++ {
				b.count++
				if y := x.Index(k); y.Kind() == reflect.String {
					y.SetString("s" + strconv.Itoa(b.count))
				} else {
					y.Set(reflect.New(ft.Type.Elem().Elem()))
					b.fill(y.Elem(), depth+1, max)
				}
			}
			continue
		}
		if depth == 0 && !exclusive {
			present = v.Bool("present", i)
		}
		if !present {
			continue
		}
		switch x.Kind() {
		case reflect.Bool:
			x.SetBool(true)
		case reflect.String:
			x.SetString("s" + strconv.Itoa(b.count))
		case reflect.Ptr:
			if ft.Type.Elem() == floatType {
				x.Set(reflect.ValueOf(big.NewFloat(float64(b.count) + 0.5)))
				continue
			}
			x.Set(reflect.New(ft.Type.Elem()))
			b.fill(x.Elem(), depth+1, max)
		}
	}
}

// Nodes: a node of any type, with any of its optional parts and lists of up to two elements.
//
//verif prop=C13,C14 panic=* DEPTH=2 tier=quick reach=node
//verif prop=C13,C14 panic=* DEPTH=3 tier=thorough reach=node
func Nodes() {
	t := nodeTypes[v.Case()]
	n := t.make()
	b := &builder{other: &etx.Ident{Parts: []string{"parent"}}}
	b.fill(reflect.ValueOf(n).Elem(), 0, v.Param("DEPTH"))
	v.Reach("node")
	if v.Is("C14") {
		if x, ok := n.(etx.Node); ok {
			checkChildren(x, reflect.ValueOf(n).Elem())
		}
	}
	if v.Is("C13") {
		v.Assert(t.absent(), "C13:cloning an absent node gives an absent node")
		checkClone(n, t.clone(n))
	}
}

func NodesCases() int { return len(nodeTypes) }
