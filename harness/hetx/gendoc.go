package hetx

import (
	"reflect"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

func (g *gen) decl() *etx.Decl {
	out := &etx.Decl{ASTNode: g.pos(), DeclType: []string{"val", "const", "input", "output"}[g.pick(4)]}
	g.raw(out.DeclType)
	g.gap()
	out.Label = g.name()
	if g.pick(2) == 1 {
		g.no()
		g.t(":")
		g.sp()
		out.Type = g.typ()
	}
	if g.pick(2) == 0 {
		g.gap()
		g.t("=")
		g.sp()
		out.Value = g.expr()
	}
	return out
}

func (g *gen) funcDecl(k int) *etx.FuncDecl {
	out := &etx.FuncDecl{ASTNode: g.pos(), DeclType: []string{"val", "const"}[k]}
	g.raw(out.DeclType)
	g.gap()
	out.Label = g.name()
	if g.pick(2) == 1 {
		g.no()
		g.t(":")
		g.sp()
		out.Type = g.typ()
	}
	if g.pick(2) == 0 {
		g.sp()
		g.t("=")
		g.sp()
		out.Value = g.expr()
	}
	return out
}

// fn writes a function; base sets how many parameters, results and statements the plainest one has.
func (g *gen) fn(params, rets, body int) *etx.Func {
	out := &etx.Func{ASTNode: g.pos()}
	g.t("def")
	g.gap()
	out.Label = g.name()
	g.no()
	g.t("(")
	for i := 0; i < params; i++ {
		if i > 0 {
			g.no()
			g.t(",")
			g.sp()
		}
		p := &etx.FuncParameter{ASTNode: g.pos(), Label: g.name()}
		if g.pick(2) == 0 {
			g.no()
			g.t(":")
			g.sp()
			p.Type = g.typ()
		}
		out.Parameters = append(out.Parameters, p)
	}
	g.t(")")
	switch rets {
	case 0:
	case 1:
		g.gap()
		switch g.pick(3) {
		case 0:
			p := g.pos()
			out.Return = append(out.Return, &etx.ParameterType{ASTNode: p, Ident: g.ident()})
		case 1:
			g.t("(")
			out.Return = append(out.Return, g.typ())
			g.t(")")
		default:
			g.t("(")
			p := g.pos()
			out.Return = append(out.Return, &etx.ParameterType{ASTNode: p, Func: g.sig(1)})
			g.t(")")
		}
	default:
		g.sp()
		g.t("(")
		for i := 0; i < rets; i++ {
			if i > 0 {
				g.t(",")
				g.sp()
			}
			out.Return = append(out.Return, g.typ())
		}
		g.t(")")
	}
	g.gap()
	g.nl()
	g.t("{")
	g.nl()
	put := func() {
		if c := g.comment(); c != nil {
			out.Body = append(out.Body, &etx.FuncStatement{ASTNode: c.ASTNode, Comment: c})
		}
	}
	if body > 0 {
		g.t("\n ")
	}
	put()
	for i := 0; i < body; i++ {
		p := g.pos()
		k := i + g.pick(4)
		switch k % 4 {
		case 0:
			out.Body = append(out.Body, &etx.FuncStatement{ASTNode: p, Decl: g.funcDecl(0)})
		case 1:
			out.Body = append(out.Body, &etx.FuncStatement{ASTNode: p, Expr: g.expr()})
		case 2:
			out.Body = append(out.Body, &etx.FuncStatement{ASTNode: p, Decl: g.funcDecl(1)})
		case 3:
			out.Body = append(out.Body, &etx.FuncStatement{ASTNode: p, Expr: &etx.Expr{ASTNode: p, If: g.iff(2)}})
		}
		g.sp()
		if i+1 == body && g.layout(2) == 1 {
			break
		}
		g.eol()
		g.nl()
		put()
	}
	g.t("}")
	return out
}

func (g *gen) enum(n int) *etx.Type {
	out := &etx.Type{ASTNode: g.pos()}
	g.t("type")
	g.gap()
	out.Label = g.name()
	g.gap()
	g.t("enum")
	g.sp()
	g.t("{")
	g.nl()
	if n > 0 {
		g.t("\n ")
	}
	out.Enum = &etx.TypeEnum{}
	put := func() {
		if c := g.comment(); c != nil {
			out.Enum.Items = append(out.Enum.Items, &etx.TypeEnumItem{ASTNode: c.ASTNode, Comment: c})
		}
	}
	put()
	for i := 0; i < n; i++ {
		it := &etx.TypeEnumItem{ASTNode: g.pos(), Label: g.name()}
		g.no()
		g.t(":")
		g.sp()
		it.Value = *g.expr()
		out.Enum.Items = append(out.Enum.Items, it)
		g.sp()
		g.eol()
		g.nl()
		put()
	}
	if n == 0 {
		out.Enum.ASTNode = g.pos()
	}
	if len(out.Enum.Items) > 0 {
		out.Enum.ASTNode = out.Enum.Items[0].ASTNode
	}
	g.t("}")
	return out
}

func (g *gen) object(n int) *etx.Type {
	out := &etx.Type{ASTNode: g.pos()}
	g.t("type")
	g.gap()
	out.Label = g.name()
	g.gap()
	g.t("object")
	g.sp()
	g.t("{")
	g.nl()
	if n > 0 {
		g.t("\n ")
	}
	out.Object = &etx.TypeObject{}
	put := func() {
		if c := g.comment(); c != nil {
			out.Object.Items = append(out.Object.Items, &etx.TypeObjectItem{ASTNode: c.ASTNode, Comment: c})
		}
	}
	put()
	for i := 0; i < n; i++ {
		it := &etx.TypeObjectItem{ASTNode: g.pos(), Label: g.name()}
		g.no()
		g.t(":")
		g.sp()
		it.Type = *g.typ()
		out.Object.Items = append(out.Object.Items, it)
		g.sp()
		g.eol()
		g.nl()
		put()
	}
	if n == 0 {
		out.Object.ASTNode = g.pos()
	}
	if len(out.Object.Items) > 0 {
		out.Object.ASTNode = out.Object.Items[0].ASTNode
	}
	g.t("}")
	return out
}

func (g *gen) attribute() *etx.Attribute {
	out := &etx.Attribute{ASTNode: g.pos(), Key: g.name()}
	switch g.pick(3) {
	case 0:
		g.sp()
		g.t("=")
	case 1:
		g.no()
		g.t(":")
	default:
		return out
	}
	g.sp()
	out.Value = g.expr()
	return out
}

// char is any byte that stands for itself inside a string, but not a line break.
func (g *gen) char() byte {
	g.bytes++
	b := v.Byte("b", g.bytes)
	v.Assume(v.And(v.And(v.And(b != '"', b != '\\'), v.And(b != '$', b != '%')), v.And(b != '\n', b != '\'')))
	return b
}

// block writes a block. items: 'a' an attribute, 'b' an empty block, 'c' a block with an attribute.
func (g *gen) block(labels int, items string) *etx.Block {
	out := &etx.Block{ASTNode: g.pos(), Name: g.name()}
	kinds := 2
	if labels > 0 {
		kinds = []int{2, 1, 0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}[g.pick(1<<labels)]
	}
	for i := 0; i < labels; i++ {
		if kinds>>i&1 == 0 {
			g.sp()
			l := "l" + string([]byte{g.char()})
			g.t("\"")
			g.raw(l)
			g.t("\"")
			out.Labels = append(out.Labels, l)
		} else {
			g.gap()
			out.Labels = append(out.Labels, g.name())
		}
	}
	g.gap()
	g.t("{")
	g.nl()
	if items != "" {
		g.t("\n")
	}
	put := func() {
		if c := g.comment(); c != nil {
			out.Body = append(out.Body, &etx.BlockItem{ASTNode: c.ASTNode, Comment: c})
		}
	}
	put()
	for i := 0; i < len(items); i++ {
		p := g.pos()
		switch items[i] {
		case 'a':
			out.Body = append(out.Body, &etx.BlockItem{ASTNode: p, Attribute: g.attribute()})
		case 'b':
			out.Body = append(out.Body, &etx.BlockItem{ASTNode: p, Block: g.block(1, "")})
		default:
			out.Body = append(out.Body, &etx.BlockItem{ASTNode: p, Block: g.block(0, "a")})
		}
		g.sp()
		if i+1 == len(items) && g.layout(2) == 1 {
			break
		}
		g.eol()
		g.nl()
		put()
	}
	g.t("}")
	return out
}

// document writes a document of one of the kinds.
func (g *gen) document(kind int) *etx.AST {
	out := &etx.AST{}
	put := func() {
		if c := g.comment(); c != nil {
			out.Items = append(out.Items, &etx.RootItem{ASTNode: c.ASTNode, Comment: c})
		}
	}
	item := func(f func(it *etx.RootItem)) {
		it := &etx.RootItem{ASTNode: g.pos()}
		f(it)
		out.Items = append(out.Items, it)
		g.sp()
		g.eol()
		g.nl()
		put()
	}
	switch g.layout(4) {
	case 1:
		g.t("\n\n\t")
	case 2:
		g.t(" \n")
	case 3:
		g.t("   ")
	}
	put()
	switch kind {
	case 0:
		item(func(it *etx.RootItem) { it.Decl = g.decl() })
	case 1:
		item(func(it *etx.RootItem) { it.Attribute = g.attribute() })
		item(func(it *etx.RootItem) { it.Decl = g.decl() })
	case 2:
		k := g.sub(6)
		item(func(it *etx.RootItem) { it.Func = g.fn([]int{0, 1, 2, 0, 2, 4}[k], []int{0, 1, 2, 2, 0, 4}[k], 1) })
	case 3:
		item(func(it *etx.RootItem) { it.Func = g.fn(1, 1, 3) })
	case 4:
		item(func(it *etx.RootItem) { it.Type = g.enum([]int{0, 1, 2, 4}[g.sub(4)]) })
	case 5:
		item(func(it *etx.RootItem) { it.Type = g.object([]int{0, 1, 2, 4}[g.sub(4)]) })
	case 6:
		item(func(it *etx.RootItem) { it.Block = g.block(2, "ab") })
	case 7:
		item(func(it *etx.RootItem) { it.Block = g.block(0, "aca") })
		item(func(it *etx.RootItem) { it.Block = g.block(1, "") })
	case 9:
		item(func(it *etx.RootItem) { it.Block = g.block(4, "cb") })
	case 8: // one of each
		item(func(it *etx.RootItem) { it.Block = g.block(1, "a") })
		item(func(it *etx.RootItem) { it.Type = g.enum(1) })
		item(func(it *etx.RootItem) { it.Func = g.fn(1, 1, 1) })
		item(func(it *etx.RootItem) { it.Type = g.object(1) })
		item(func(it *etx.RootItem) { it.Decl = g.decl() })
		item(func(it *etx.RootItem) { it.Attribute = g.attribute() })
	}
	return out
}

const docKinds = 10

// same compares two trees; it tells where they differ first, or "".
type same struct {
	pos    bool // positions too
	layout bool // blank lines are ignored anyway; comments are compared too
	parens bool // parentheses around single operands do not matter
	loose  bool // tabs after a line break inside a string do not matter
}

func (c *same) skip(x any) bool {
	switch y := x.(type) {
	case *etx.RootItem:
		return y.EmptyLine != "" || y.Comment != nil && !c.layout
	case *etx.BlockItem:
		return y.EmptyLine != "" || y.Comment != nil && !c.layout
	case *etx.FuncStatement:
		return y.EmptyLine != "" || y.Comment != nil && !c.layout
	case *etx.ListItem:
		return y.EmptyLine != "" || y.Comment != nil && !c.layout
	case *etx.MapItem:
		return y.EmptyLine != "" || y.Comment != nil && !c.layout
	case *etx.TypeEnumItem:
		return y.EmptyLine != "" || y.Comment != nil && !c.layout
	case *etx.TypeObjectItem:
		return y.EmptyLine != "" || y.Comment != nil && !c.layout
	}
	return false
}

func (c *same) items(s reflect.Value) []reflect.Value {
	out := make([]reflect.Value, 0, s.Len())
	for i := 0; i < s.Len(); i++ {
		x := s.Index(i)
		if x.Kind() == reflect.Ptr && !x.IsNil() && c.skip(x.Interface()) {
			continue
		}
		out = append(out, x)
	}
	return out
}

func (c *same) lists(name string, a, b reflect.Value) string {
	x, y := c.items(a), c.items(b)
	if len(x) != len(y) {
		return name + ": number of elements"
	}
	for i := range x {
		if x[i].Kind() == reflect.String {
			p, q := x[i].String(), y[i].String()
			if c.loose && name == "Labels" {
				p, q = unindent(p), unindent(q)
			}
			if p != q {
				return name
			}
		} else if d := c.ptrs(name, x[i], y[i]); d != "" {
			return d
		}
	}
	return ""
}

func (c *same) ptrs(name string, a, b reflect.Value) string {
	if a.IsNil() || b.IsNil() {
		if a.IsNil() != b.IsNil() {
			return name + ": present in one only"
		}
		return ""
	}
	return c.structs(a.Elem(), b.Elem())
}

// strip removes parentheses around single operands.
func strip(s reflect.Value) reflect.Value {
	for {
		x, ok := s.Addr().Interface().(*etx.ExprPrimary)
		if !ok || x.SubExpression == nil {
			return s
		}
		p := operand(x.SubExpression)
		if p == nil {
			return s
		}
		s = reflect.ValueOf(p).Elem()
	}
}

func (c *same) structs(a, b reflect.Value) string {
	if c.parens {
		a, b = strip(a), strip(b)
	}
	t := a.Type()
	if b.Type() != t {
		return t.Name()
	}
	if m, ok := a.Addr().Interface().(*etx.ValueNumber); ok {
		if n := b.Addr().Interface().(*etx.ValueNumber); n.Source != m.Source && m.Value != nil && n.Value != nil {
			// written in another way
			if m.Value.Cmp(n.Value) != 0 {
				return "Value"
			}
			return ""
		}
	}
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i)
		name := ft.Name
		x, y := a.Field(i), b.Field(i)
		if ft.Type == astNodeType {
			if c.pos {
				p, q := x.Addr().Interface().(*etx.ASTNode).Pos, y.Addr().Interface().(*etx.ASTNode).Pos
				if p.Offset != q.Offset || p.Line != q.Line || p.Column != q.Column {
					return t.Name() + " position"
				}
			}
			continue
		}
		if name == "EmptyLine" {
			continue
		}
		d := ""
		switch x.Kind() {
		case reflect.Bool:
			if x.Bool() != y.Bool() {
				d = name
			}
		case reflect.String:
			p, q := x.String(), y.String()
			if name == "Multiline" {
				p, q = trimLF(p), trimLF(q)
			}
			if c.loose && name == "Text" {
				p, q = unindent(p), unindent(q)
			}
			if p != q {
				d = name
			}
		case reflect.Ptr:
			if ft.Type.Elem() == floatType {
				continue // numbers: by their source text, and C17
			}
			d = c.ptrs(name, x, y)
		case reflect.Struct:
			if placeholder(a, name) && placeholder(b, name) {
				continue
			}
			d = c.structs(x, y)
		case reflect.Slice:
			d = c.lists(name, x, y)
		}
		if d != "" {
			return t.Name() + "." + d
		}
	}
	return ""
}

func trimLF(s string) string {
	for len(s) > 0 && (s[len(s)-1] == '\n' || s[len(s)-1] == '\r') {
		s = s[:len(s)-1]
	}
	return s
}

// unindent removes the tabs that follow a line break.
func unindent(s string) string {
	out := make([]byte, 0, len(s))
	at := false
	for i := 0; i < len(s); i++ {
		if at && s[i] == '\t' {
			continue
		}
		at = s[i] == '\n'
		out = append(out, s[i])
	}
	return string(out)
}

// outline lists the comments of a tree in order, and the places of the items among them.
func outline(ast *etx.AST) []string {
	var out []string
	f := func(n, parent etx.Node, s reflect.Value, real bool) {
		switch x := n.(type) {
		case *etx.Comment:
			for _, l := range x.SingleLine {
				out = append(out, l)
			}
			if x.Multiline != "" {
				out = append(out, unindent(trimLF(x.Multiline)))
			}
		case *etx.RootItem, *etx.BlockItem, *etx.FuncStatement, *etx.ListItem, *etx.MapItem, *etx.TypeEnumItem, *etx.TypeObjectItem:
			if !layout(n) {
				out = append(out, ".")
			}
		}
	}
	all(ast, f)
	return out
}

func hasHeredoc(ast *etx.AST) bool {
	found := false
	all(ast, func(n, parent etx.Node, s reflect.Value, real bool) {
		if _, ok := n.(*etx.Heredoc); ok {
			found = true
		}
	})
	return found
}

func (c *same) trees(a, b *etx.AST) string {
	return c.structs(reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem())
}

// checkDoc parses a generated text and compares the tree with the expected one.
func checkDoc(g *gen, want *etx.AST) {
	src := string(g.b)
	ast, err := etx.ParseString(src)
	prop := "C25"
	if v.Is("C23") {
		prop = "C23"
	}
	v.ObsStr("text", src)
	v.ObsBool("ok", err == nil)
	v.Assert(err == nil, prop+":accepted")
	if err != nil {
		return
	}
	v.Reach("accepted")
	if v.Is("C25") {
		d := (&same{}).trees(ast, want)
		v.Assert(d == "", "C25:the items, as written")
	}
	if v.Is("C23") {
		d := (&same{layout: true}).trees(ast, want)
		v.Assert(d == "", "C23:the comments and the items around them, as written")
	}
	if v.Is("C24") {
		if (&same{layout: true}).trees(ast, want) == "" {
			d := (&same{layout: true, pos: true}).trees(ast, want)
			v.ObsStr("first difference", d)
			v.Assert(d == "", "C24:the position of each node is where its text begins")
		}
	}
	if v.Is("C11") {
		checkEntries(src, ast, err)
	}
	if v.Is("C12") {
		checkParents(ast)
	}
	if v.Is("C13") {
		checkCloneAST(ast)
	}
	if v.Is("C14") {
		checkChildrenAST(ast)
	}
	if v.Is("C20") {
		checkFormats(ast)
	}
	if v.Is("C21") || v.Is("C22") {
		prop := "C22"
		if v.Is("C21") {
			prop = "C21"
		}
		checkRoundTrip(ast, prop)
	}
}

func docs1() {
	g := newGen(v.Param("BUDGET"), v.Param("LAY"), v.Param("COM"))
	want := g.document(v.Case())
	checkDoc(g, want)
}

// exprs1 writes a declaration whose value is the given construct.
func exprs1() {
	g := newGen(v.Param("BUDGET"), v.Param("LAY"), v.Param("COM"))
	g.full = v.Param("FULL") == 1
	g.force = v.Case()
	want := &etx.AST{}
	it := &etx.RootItem{ASTNode: g.pos()}
	d := &etx.Decl{ASTNode: g.pos(), DeclType: "val"}
	g.t("val ")
	d.Label = g.name()
	g.t(" = ")
	d.Value = g.expr()
	g.t("\n")
	it.Decl = d
	want.Items = append(want.Items, it)
	checkDoc(g, want)
}

// Docs: documents of every kind, with choices of structure.
//
//verif prop=C12,C13,C14,C20,C21,C22,C24,C25 panic=* BUDGET=1 FULL=0 LAY=0 COM=0 reach=accepted
func Docs() { docs1() }

func DocsCases() int { return docKinds }

// DocsLayout: documents of every kind, with blanks and line breaks.
//
//verif prop=C22,C24,C25 panic=* BUDGET=0 FULL=0 LAY=1 COM=0 reach=accepted
func DocsLayout() { docs1() }

func DocsLayoutCases() int { return docKinds }

// DocsComments: documents of every kind, with a comment at any place.
//
//verif prop=C12,C13,C14,C20,C22,C23,C24,C25 panic=* BUDGET=0 FULL=0 LAY=0 COM=1 reach=accepted
func DocsComments() { docs1() }

func DocsCommentsCases() int { return docKinds }

// Exprs: a declaration whose value is every construct of the expression language.
//
//verif prop=C12,C13,C14,C20,C21,C22,C24,C25 panic=* BUDGET=1 FULL=0 LAY=0 COM=0 reach=accepted
func Exprs() { exprs1() }

func ExprsCases() int { return exprForms }

// ExprsLayout: the constructs of the expression language, with blanks, line breaks.
//
//verif prop=C21,C24,C25 panic=* BUDGET=0 FULL=0 LAY=1 COM=0 reach=accepted
func ExprsLayout() { exprs1() }

func ExprsLayoutCases() int { return exprForms }

// ExprsComments: lists and maps with a comment at any place.
//
//verif prop=C12,C13,C14,C20,C22,C23,C24,C25 panic=* BUDGET=1 FULL=0 LAY=0 COM=1 cases=7-10 reach=accepted
func ExprsComments() { exprs1() }

func ExprsCommentsCases() int { return exprForms }
