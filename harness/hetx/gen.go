package hetx

import (
	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// A gen writes a text together with the tree that the text means. What it writes is symbolic: the names, digits and
// contents are symbolic bytes, and up to budget choices differ from the plainest text.
type gen struct {
	b         []byte
	line, col int
	budget    int
	lay       int // layout choices that may differ
	com       int // comments that may be put in
	picks     int
	lays      int
	names     int
	bytes     int
	comments  []string
	full      bool // every construct of the expression language, rather than a few
	top       int  // the operand that was asked for, while it is being written
	every     int  // if more than 1: only one in so many of the bytes of names is symbolic
	force     int  // the construct to use for the first expression, if not negative
}

func newGen(budget, lay, com int) *gen {
	return &gen{line: 1, col: 1, budget: budget, lay: lay, com: com, force: -1, top: -1}
}

// pick chooses one of n ways to go on; 0 is the plainest.
func (g *gen) pick(n int) int {
	if g.budget == 0 {
		return 0
	}
	g.picks++
	c := v.Choose("pick", n, g.picks)
	if c != 0 {
		g.budget--
	}
	return c
}

func (g *gen) layout(n int) int {
	if g.lay == 0 {
		return 0
	}
	g.lays++
	c := v.Choose("layout", n, g.lays)
	if c != 0 {
		g.lay--
	}
	return c
}

// t writes literal text.
func (g *gen) t(s string) {
	for i := 0; i < len(s); i++ {
		g.b = append(g.b, s[i])
	}
	for _, r := range s {
		if r == '\n' {
			g.line++
			g.col = 1
		} else {
			g.col++
		}
	}
}

// c writes one byte that is not a line break.
func (g *gen) c(b byte) {
	g.b = append(g.b, b)
	g.col++
}

func (g *gen) pos() etx.ASTNode {
	return etx.ASTNode{Pos: etx.Position{Offset: len(g.b), Line: g.line, Column: g.col}}
}

// one gives a symbolic byte between lo and hi.
func (g *gen) one(lo, hi byte) byte {
	g.bytes++
	if g.every > 1 && g.bytes%g.every != 1 {
		return lo + byte(g.bytes*7)%(hi-lo+1)
	}
	b := v.Byte("b", g.bytes)
	v.Assume(v.And(b >= lo, b <= hi))
	return b
}

// name writes a fresh name: two fixed characters, which make it different from every other one, and a symbolic one.
func (g *gen) name() string {
	g.names++
	n := string([]byte{'x', byte('0' + g.names%10), g.one('a', 'z')})
	if k := g.names / 10; k > 0 {
		n = string([]byte{byte('y' - k%20)}) + n[1:]
	}
	g.raw(n)
	return n
}

// raw writes text without line breaks that may hold symbolic bytes.
func (g *gen) raw(s string) {
	for i := 0; i < len(s); i++ {
		g.c(s[i])
	}
}

// sp writes the blank between two tokens that need none.
func (g *gen) sp() {
	switch g.layout(3) {
	case 0:
		g.t(" ")
	case 2:
		g.t("\t  ")
	}
}

// gap writes the blank between two tokens that need one.
func (g *gen) gap() {
	if g.layout(2) == 1 {
		g.t("  \t")
	} else {
		g.t(" ")
	}
}

// no writes a blank at a place where there is usually none.
func (g *gen) no() {
	if g.layout(2) == 1 {
		g.t(" ")
	}
}

// nl writes optional line breaks.
func (g *gen) nl() {
	switch g.layout(4) {
	case 1:
		g.t("\n")
	case 2:
		g.t("\r\n\t\n")
	case 3:
		g.t("\n\n\n ")
	}
}

// eol ends a line.
func (g *gen) eol() {
	switch g.layout(3) {
	case 0:
		g.t("\n")
	case 1:
		g.t("\r\n")
	case 2: // the next item is on the same line
		g.t(" \t")
	}
}

// comment writes a comment or nothing, at a place where one is allowed.
func (g *gen) comment() *etx.Comment {
	if g.com == 0 {
		return nil
	}
	g.lays++
	c := v.Choose("comment", 12, g.lays)
	if c == 0 {
		return nil
	}
	g.com--
	p := g.pos()
	out := &etx.Comment{ASTNode: p}
	n := len(g.b)
	switch c {
	case 1:
		g.raw("// ")
		g.c(g.any())
		g.raw(" é} \"x")
		out.SingleLine = []string{string(g.b[n:])}
		g.t("\n")
	case 2:
		g.c('#')
		g.c(g.any())
		g.c(g.any())
		out.SingleLine = []string{string(g.b[n:])}
		g.t("\n")
	case 3:
		g.t("/*")
		g.c(g.star())
		g.t("é\n val x = { */")
		out.Multiline = string(g.b[n:])
		g.t("\n")
	case 4:
		g.t("/* ")
		g.c(g.star())
		g.t("*/")
		out.Multiline = string(g.b[n:])
		g.t(" ")
	case 5:
		g.raw("//")
		g.c(g.any())
		out.SingleLine = []string{string(g.b[n:])}
		g.t("\n\t")
		n = len(g.b)
		g.raw("# ")
		g.c(g.any())
		out.SingleLine = append(out.SingleLine, string(g.b[n:]))
		g.t("\n")
	case 6, 7: // nothing after the mark
		g.raw([]string{"//", "#"}[c-6])
		out.SingleLine = []string{string(g.b[n:])}
		g.t("\n")
	case 8, 9, 10, 11: // nothing in between, or stars
		g.t([]string{"/**/", "/***/", "/** é **/", "/*/*/"}[c-8])
		out.Multiline = string(g.b[n:])
		g.t("\n")
	}
	for _, s := range out.SingleLine {
		g.comments = append(g.comments, s)
	}
	if out.Multiline != "" {
		g.comments = append(g.comments, out.Multiline)
	}
	return out
}

// any is any byte but a line break; star also not one that could end a comment.
func (g *gen) any() byte {
	g.bytes++
	b := v.Byte("b", g.bytes)
	v.Assume(b != '\n')
	return b
}

func (g *gen) star() byte {
	g.bytes++
	b := v.Byte("b", g.bytes)
	v.Assume(v.And(v.And(b != '*', b != '/'), b != '\n'))
	return b
}

func (g *gen) ident() *etx.Ident {
	p := g.pos()
	out := &etx.Ident{ASTNode: p, Parts: []string{g.name()}}
	for k := []int{0, 1, 3}[g.pick(3)]; k > 0; k-- {
		g.t(".")
		out.Parts = append(out.Parts, g.name())
	}
	return out
}

func (g *gen) typ() *etx.ParameterType {
	p := g.pos()
	if k := g.pick(5); k > 0 {
		return &etx.ParameterType{ASTNode: p, Func: g.sig([]int{1, 0, 2, 4}[k-1])}
	}
	return &etx.ParameterType{ASTNode: p, Ident: g.ident()}
}

func (g *gen) sig(n int) *etx.FuncSignature {
	out := &etx.FuncSignature{ASTNode: g.pos()}
	g.t("(")
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
			g.sp()
		}
		out.Parameters = append(out.Parameters, g.typ())
	}
	g.t(")")
	g.sp()
	g.t("->")
	g.sp()
	out.Return = *g.typ()
	return out
}
