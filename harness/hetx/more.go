package hetx

import (
	"io"
	"math/big"
	"reflect"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

var eof = io.EOF

// checkChildren compares the children of a node with the nodes found in its fields.
func checkChildren(n etx.Node, s reflect.Value) {
	want := 0
	kids := n.Children()
	again := n.Children()
	v.Assert(len(kids) == len(again), "C14:the children are listed in a fixed order")
	for i := range kids {
		if i < len(again) {
			v.Assert(kids[i] == again[i], "C14:the children are listed in a fixed order")
		}
	}
	last := ""
	at := -1
	direct(s, func(field string, c etx.Node, _ reflect.Value) {
		want++
		found := -1
		for i, k := range kids {
			if k == c {
				v.Assert(found < 0, "C14:a child is listed once")
				found = i
			}
		}
		v.Assert(found >= 0, "C14:every direct sub-node is a child")
		if field == last {
			v.Assert(found > at, "C14:the elements of a list keep their order")
		}
		last, at = field, found
	})
	v.Assert(len(kids) == want, "C14:nothing else is a child")
}

func checkChildrenAST(ast *etx.AST) {
	kids := ast.Children()
	v.Assert(len(kids) == len(ast.Items), "C14:the children of a tree are its items")
	for i := range kids {
		if i < len(ast.Items) {
			v.Assert(kids[i] == etx.Node(ast.Items[i]), "C14:the children of a tree are its items")
		}
	}
	all(ast, func(n, parent etx.Node, s reflect.Value, real bool) {
		checkChildren(n, s)
	})
}

const cloneShares = "C13:a clone shares nothing with the original"

// parts collects everything mutable below a struct: nodes, numbers, lists.
func parts(s reflect.Value, out map[any]bool, check string) {
	t := s.Type()
	one := func(p any) {
		if check != "" {
			v.Assert(!out[p], check)
		} else {
			out[p] = true
		}
	}
	if s.CanAddr() {
		one(s.Addr().Interface())
	}
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i)
		x := s.Field(i)
		if ft.Type == astNodeType {
			if check == cloneShares {
				v.Assert(x.Addr().Interface().(*etx.ASTNode).Parent == nil, "C13:a clone has no parent")
			}
			continue
		}
		switch x.Kind() {
		case reflect.Ptr:
			if x.IsNil() {
				continue
			}
			if ft.Type.Elem() == floatType {
				one(x.Interface())
			} else {
				parts(x.Elem(), out, check)
			}
		case reflect.Struct:
			parts(x, out, check)
		case reflect.Slice:
			for k := 0; k < x.Len(); k++ {
				one(x.Index(k).Addr().Interface())
				if ft.Type.Elem().Kind() == reflect.Ptr && !x.Index(k).IsNil() {
					parts(x.Index(k).Elem(), out, check)
				}
			}
		}
	}
}

// numbers calls f for every number below a struct.
func numbers(s reflect.Value, f func(*big.Float)) {
	t := s.Type()
	for i := 0; i < t.NumField(); i++ {
		x := s.Field(i)
		switch {
		case t.Field(i).Type == astNodeType:
		case x.Kind() == reflect.Ptr && !x.IsNil():
			if n, ok := x.Interface().(*big.Float); ok {
				f(n)
			} else {
				numbers(x.Elem(), f)
			}
		case x.Kind() == reflect.Struct:
			numbers(x, f)
		case x.Kind() == reflect.Slice:
			for k := 0; k < x.Len(); k++ {
				if y := x.Index(k); y.Kind() == reflect.Ptr && !y.IsNil() {
					numbers(y.Elem(), f)
				}
			}
		}
	}
}

// checkClone compares a node with its clone, and changes the numbers of the clone.
func checkClone(n any, c any) {
	was := dumpNode(n, true, false)
	v.Assert(dumpNode(c, true, false) == was, "C13:a clone carries the same content and positions")
	set := map[any]bool{}
	parts(reflect.ValueOf(n).Elem(), set, "")
	parts(reflect.ValueOf(c).Elem(), set, cloneShares)
	changed := false
	numbers(reflect.ValueOf(c).Elem(), func(f *big.Float) {
		f.SetInt64(0x5a5a5a5a5a5)
		changed = true
	})
	if changed {
		v.Assert(dumpNode(n, true, false) == was, "C13:a number of a clone is independent of the original")
	}
}

func checkCloneAST(ast *etx.AST) {
	c := ast.Clone()
	v.Assert(c.FormattedString() == ast.FormattedString(), "C13:a clone formats the same")
	checkClone(ast, c)
}
