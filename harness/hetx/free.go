package hetx

import (
	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// contexts are texts with a hole that free bytes go into.
var contexts = [][2]string{
	{"", ""},
	{"a = \"", "\"\n"},
	{"a = '\\", "'\n"},
	{"a = \"p${", "}\"\n"},
	{"a = \"\\u00e", "9\"\n"},
	{"a = <<E\n", "\nE\n"},
	{"a = <<", "E\nx\nE\n"},
	{"a = <<E\n${b}", "\nE\nc\n"},
	{"val a = b ", " c\n"},
	{"val a = 1", "\n"},
	{"val a = 0", "7\n"},
	{"val a = b", "c\n"},
	{"val a = [", "]\n"},
	{"val a = {", "}\n"},
	{"val a = f(", ").x\n"},
	{"val a = b ? c", " : d\n"},
	{"val a = if b {", "} else {c}\n"},
	{"val a = switch b { case c", "{d} default:{e}}\n"},
	{"/*", "*/\n"},
	{"a = 1 #", "\nb = 2\n"},
	{"a {", "}\n"},
	{"a \"b", "c\" {\n}\n"},
	{"def f(", ") {}\n"},
	{"def f() ", " {}\n"},
	{"def f() {", "}\n"},
	{"type t ", " {}\n"},
	{"type t enum {\n", "}\n"},
	{"type t object {\na: b\n", "}\n"},
	{"val x: ", " = 1\n"},
	{"val", "a = 1\n"},
	{"\xef\xbb\xbf", "a = 1\n"},
	{"a = \"\xff", "\xc3\" // \xe9\nb = 1\n"},
	{"a = 'ü", "' # ß\n"},
	{"a = 'b'", "\u00a0// \u2028c\n"},
}

func free(n int) {
	c := contexts[v.Case()]
	b := []byte(c[0])
	for i := 0; i < n; i++ {
		b = append(b, v.Byte("b", i))
	}
	b = append(b, c[1]...)
	checkText(string(b))
}

// Free: any bytes in each of the contexts.
//
//verif prop=C10,C11,C12,C13,C14,C20,C21,C22 panic=C10 FREE=1 tier=quick reach=rejected
func Free() { free(v.Param("FREE")) }

func FreeCases() int { return len(contexts) }

// FreePairs: two bytes.
//
//verif prop=C10 panic=C10 FREE=2 reach=rejected
func FreePairs() { free(v.Param("FREE")) }

func FreePairsCases() int { return len(contexts) }

// words are tokens that texts are put together from.
var words = []string{
	"x", "47", "val", "const", "input", "output", "def", "type", "enum", "object", "if", "else", "switch", "case", "default", "true", "null", "\"s\"", "'${x}'", "<<E\nt\nE\n",
	"// c\n", "/* c */", "\n", "{", "}", "(", ")", "[", "]", ",", ".", ":", "=", "?", "->", "=>", "-", "!", "*", "==", "<<", "&&", "|", "\"", "'",
}

// Words: any sequence of tokens at the top level, in a declaration, a function and a block.
//
//verif prop=C10 panic=C10 WORDS=2 tier=quick
func Words() { wordsText(v.Param("WORDS")) }

func wordsText(n int) {
	b := []byte([]string{"", "val x = y ", "def f() { ", "b { ", "type t object {", "val x = [", "val x = {", "a = f("}[v.Case()])
	for i := 0; i < n; i++ {
		w := words[v.Choose("w", len(words), i)]
		b = append(b, w...)
		b = append(b, ' ')
	}
	b = append(b, []string{"", "\n", "}\n", "}\n", "}\n", "]\n", "}\n", ")\n"}[v.Case()]...)
	checkText(string(b))
}

func WordsCases() int { return 8 }

// Blank: blank space, line breaks and complete comments are always accepted.
//
//verif prop=C10 panic=C10 PIECES=3 reach=blank
func Blank() {
	var b []byte
	n := v.Param("PIECES")
	k := v.Case()
	for i := 0; i < n; i++ {
		p := v.Choose("piece", 6, i)
		if i == 0 {
			v.Assume(p == k)
		}
		switch p {
		case 0: // a blank
			x := v.Byte("b", i)
			v.Assume(v.Or(v.Or(x == ' ', x == '\t'), v.Or(x == '\n', x == '\r')))
			b = append(b, x)
		case 1:
			x := v.Byte("b", i)
			v.Assume(x != '\n')
			b = append(b, "//"...)
			b = append(b, x, '\n')
		case 2:
			x := v.Byte("b", i)
			v.Assume(x != '\n')
			b = append(b, '#', x)
			if i+1 < n {
				b = append(b, '\n')
			}
		case 3:
			x, y := v.Byte("b", i), v.Byte("c", i)
			v.Assume(v.Not(v.And(x == '*', y == '/')))
			b = append(b, "/*"...)
			b = append(b, x, y)
			// the two bytes may not end the comment together with what stands around them
			v.Assume(y != '*')
			b = append(b, "*/"...)
		case 4: // a comment with nothing in it, or with stars
			b = append(b, []string{"/**/", "/***/", "/* **/", "/*é*/", "/*/*/"}[v.Choose("shape", 5, i)]...)
		case 5:
			b = append(b, []string{"//\n", "#\n", "///\n", "//é\n", "##\n", "//\r\n"}[v.Choose("shape", 6, i)]...)
		}
	}
	src := string(b)
	ast, err := etx.ParseString(src)
	v.Reach("blank")
	v.Assert(err == nil && ast != nil, "C10:blank space and comments are accepted")
	v.Assert((err == nil) == (ast != nil), "C10:a tree or an error, never both or neither")
}

func BlankCases() int { return 6 }
