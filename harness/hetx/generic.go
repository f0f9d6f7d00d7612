package hetx

import (
	"math/big"
	"errors"
	"reflect"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// checkText parses a text and checks every property that holds of any text.
func checkText(src string) {
	ast, err := etx.ParseString(src)
	v.ObsBool("accepted", err == nil)
	v.Assert((err == nil) == (ast != nil), "C10:a tree or an error, never both or neither")
	if v.Is("C11") {
		checkEntries(src, ast, err)
	}
	if err != nil {
		v.Reach("rejected")
		return
	}
	v.Reach("accepted")
	v.Panics()
	if v.Is("C12") {
		checkParents(ast)
	}
	if v.Is("C13") {
		checkCloneAST(ast)
	}
	if v.Is("C14") {
		checkChildrenAST(ast)
	}
	if v.Is("C20") {
		checkFormats(ast)
	}
	if v.Is("C22") {
		checkRoundTrip(ast, "C22")
	}
	if v.Is("C21") {
		checkRoundTrip(ast, "C21")
	}
}

// reader hands out a text in small pieces, as a reader may: kind 1 gives the end together with the last piece, kind 2
// sometimes gives nothing, kind 3 fails at the end of the text.
type reader struct {
	s       string
	n       int
	kind    int
	nothing bool
}

var broken = errors.New("broken")

func (r *reader) Read(p []byte) (int, error) {
	if r.n >= len(r.s) {
		if r.kind == 3 {
			return 0, broken
		}
		return 0, eof
	}
	r.nothing = !r.nothing
	if r.kind == 2 && r.nothing {
		return 0, nil
	}
	k := 3
	if r.kind == 1 {
		k = 7
	}
	if k > len(p) {
		k = len(p)
	}
	k = copy(p[:k], r.s[r.n:])
	r.n += k
	if r.kind == 1 && r.n == len(r.s) {
		return k, eof
	}
	return k, nil
}

func checkEntries(src string, a *etx.AST, err error) {
	b := []byte(src)
	x, ex := etx.ParseBytes(b)
	v.Assert(string(b) == src, "C11:the bytes are not modified")
	y, ey := etx.Parse(&reader{s: src, kind: v.Case() % 3})
	z, ez := etx.ParseString(src)
	v.Assert((ex == nil) == (err == nil) && (ey == nil) == (err == nil) && (ez == nil) == (err == nil), "C11:same verdict")
	if err != nil {
		if ex != nil && ey != nil && ez != nil {
			v.Assert(ex.Error() == err.Error() && ey.Error() == err.Error() && ez.Error() == err.Error(), "C11:same error")
		}
		return
	}
	if ex != nil || ey != nil || ez != nil {
		return
	}
	d := dumpAST(a, true, false)
	v.Assert(dumpAST(x, true, false) == d, "C11:same tree from bytes")
	v.Assert(dumpAST(y, true, false) == d, "C11:same tree from a reader")
	v.Assert(dumpAST(z, true, false) == d, "C11:same tree again")
	if f, ef := etx.Parse(&reader{s: src, kind: 3}); ef == nil || f != nil {
		v.Assert(false, "C11:a reader that fails gives an error")
	}
	// the trees do not depend on the caller's bytes afterwards
	for i := range b {
		b[i] = '#'
	}
	v.Assert(dumpAST(x, true, false) == d, "C11:the tree does not share the caller's bytes")
	// nor on what the caller does with the trees it got before
	set := map[any]bool{}
	parts(reflect.ValueOf(a).Elem(), set, "")
	parts(reflect.ValueOf(x).Elem(), set, "C11:the trees of two calls share nothing")
	parts(reflect.ValueOf(z).Elem(), set, "C11:the trees of two calls share nothing")
	for _, t := range []*etx.AST{a, z} {
		numbers(reflect.ValueOf(t).Elem(), func(f *big.Float) { f.SetInt64(0x5a5a5a5a5a5) })
		for i := range t.Items {
			t.Items[i] = nil
		}
		t.Items = nil
	}
	w, ew := etx.ParseString(src)
	v.Assert(ew == nil && dumpAST(w, true, false) == d, "C11:the same tree after an earlier tree was changed")
	v.Assert(dumpAST(x, true, false) == d, "C11:a tree does not change with another")
}

func checkParents(ast *etx.AST) {
	all(ast, func(n, parent etx.Node, s reflect.Value, real bool) {
		p := n.Node().Parent
		if parent == nil {
			v.Assert(p == nil, "C12:a top-level item has no parent")
		} else {
			v.Assert(p == parent, "C12:the parent of a node is the node that contains it")
		}
	})
}

func checkFormats(ast *etx.AST) {
	_ = ast.FormattedString()
	all(ast, func(n, parent etx.Node, s reflect.Value, real bool) {
		if !real {
			return
		}
		if f, ok := n.(etx.FormattedStringer); ok {
			_ = f.FormattedString()
		}
	})
	v.Assert(true, "C20:formatting returned")
}

// checkRoundTrip formats a tree, parses the text and compares. The known way in which heredocs are formatted wrongly (see
// FormatHeredoc) is put right before.
func checkRoundTrip(ast *etx.AST, prop string) {
	text := ast.FormattedString()
	v.ObsStr("formatted", text)
	if hasHeredoc(ast) {
		v.Reach("heredoc")
		if again, err := etx.ParseString(text); err == nil && (&same{parens: true}).trees(again, ast) == "" {
			return
		}
		text = mendHeredocs(text, ast)
		v.Assert(text != "", prop+":a heredoc is formatted with all its parts")
	}
	again, err := etx.ParseString(text)
	v.Assert(err == nil, prop+":formatted text parses")
	if err != nil {
		return
	}
	d := (&same{parens: true, loose: true}).trees(again, ast)
	v.ObsStr("first difference", d)
	v.Assert(d == "", prop+":formatted text means the same")
	if d == "" {
		v.Assert((&same{parens: true}).trees(again, ast) == "", prop+":a line break inside a string is kept when formatted")
	}
	if prop == "C22" {
		a, b := outline(ast), outline(again)
		v.Assert(len(a) == len(b), "C22:the comments are kept")
		for i := range a {
			if i < len(b) {
				v.Assert(a[i] == b[i], "C22:the comments are kept")
			}
		}
	}
}
