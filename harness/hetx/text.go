package hetx

import (
	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// stringOf parses a text whose first item is an attribute with a string.
func stringOf(text string) *etx.ValueString {
	ast, err := etx.ParseString(text)
	if err != nil || len(ast.Items) == 0 || ast.Items[0].Attribute == nil || ast.Items[0].Attribute.Value == nil {
		return nil
	}
	p := operand(ast.Items[0].Attribute.Value)
	if p == nil || p.Value == nil {
		return nil
	}
	return p.Value.Str
}

// marked tells an escape sequence from the same characters as text.
func marked(s string) string { return "\x01" + s + "\x02" }

// spell puts the pieces of a string together again; an embedded expression, which is the name x, is written without
// blanks.
func spell(s *etx.ValueString) string {
	out := ""
	for _, f := range s.Fragment {
		kinds := 0
		if f.Text != "" {
			out += f.Text
			kinds++
		}
		if f.Escaped != "" {
			out += marked(f.Escaped)
			kinds++
		}
		if f.Unicode != "" {
			out += marked("\\u" + f.Unicode)
			kinds++
		}
		if f.Expr != nil {
			out += "${" + groupingOf(f.Expr) + "}"
			kinds++
		}
		if f.Directive != nil {
			out += "%{" + groupingOf(f.Directive) + "}"
			kinds++
		}
		v.Assert(kinds == 1, "C18:a piece of a string is of one kind")
	}
	return out
}

// scan reads the content of a string: where it ends, and whether it is well-formed. Embedded expressions, other than
// the name x, are left to the other harnesses: plain is false.
func scan(s string, q byte) (end int, spelled string, ok, plain bool) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == q:
			return i, spelled, true, true
		case c == '\\':
			if i+1 >= len(s) {
				return 0, "", false, true
			}
			if s[i+1] == '\n' {
				return 0, "", false, false // an escaped line break: not documented
			}
			if s[i+1] != 'u' {
				n := 2 // the character after it, as a whole
				for i+n < len(s) && s[i+n]&0xc0 == 0x80 && s[i+1] >= 0xc0 {
					n++
				}
				spelled += marked(s[i : i+n])
				i += n
				continue
			}
			n := 0
			for n < 8 && i+2+n < len(s) && isHex(s[i+2+n]) {
				n++
			}
			switch {
			case n >= 8:
				spelled += marked(s[i : i+10])
				i += 10
			case n >= 4:
				spelled += marked(s[i : i+6])
				i += 6
			default:
				return 0, "", false, true
			}
		case (c == '$' || c == '%') && i+2 < len(s) && s[i+1] == c && s[i+2] == '{':
			spelled += s[i : i+3]
			i += 3
		case (c == '$' || c == '%') && i+1 < len(s) && s[i+1] == '{':
			if i+3 < len(s) && s[i+2] == 'x' && s[i+3] == '}' {
				spelled += s[i : i+4]
				i += 4
				continue
			}
			return 0, "", false, false
		default:
			spelled += s[i : i+1]
			i++
		}
	}
	return 0, "", false, true
}

// checkString parses r = "content", where the content may also end early, and compares.
func checkString(content string, q byte) {
	text := "r = " + string([]byte{q}) + content + string([]byte{q}) + "\n"
	v.ObsStr("text", text)
	end, spelled, ok, plain := scan(content+string([]byte{q}), q)
	if !plain {
		return
	}
	if ok && end < len(content) {
		v.Reach("ended early")
		if len(content)-end > 2 {
			return // the text after the string is read as anything at all
		}
	}
	s := stringOf(text)
	if !ok {
		v.Reach("malformed")
		v.Assert(s == nil, "C18:a malformed string is rejected")
		return
	}
	if end == len(content) {
		v.Reach("string")
		v.Assert(s != nil, "C18:a string is accepted")
	}
	if s != nil {
		v.Assert(spell(s) == spelled, "C18:the pieces of a string spell its content")
	}
}

var stringContexts = [][2]string{
	{"", ""}, {"a", "b"}, {"\\", "n"}, {"$", "{"}, {"%%", "x"}, {"${x}", "${x}"}, {"\\u00e", "9"}, {"'", "'"}, {"é", "\\\\"}, {"%", "{x}"}, {"a\n", "\nb"}, {"$$", "x}"}, {"\\é", "\\€"}, {"€", "😀"},
}

// Strings: any bytes within a string, in both kinds of quotes.
//
//verif prop=C18 panic=* BYTES=2 reach=string,malformed
//verif prop=C18 panic=* BYTES=3 reach=string,malformed
func Strings() {
	n := v.Param("BYTES")
	c := stringContexts[v.Case()/2]
	q := byte('"')
	if v.Case()%2 == 1 {
		q = '\''
	}
	b := []byte(c[0])
	for i := 0; i < n; i++ {
		b = append(b, v.Byte("b", i))
	}
	b = append(b, c[1]...)
	checkString(string(b), q)
}

func StringsCases() int { return 2 * len(stringContexts) }

// pieces are what strings are put together from, with their source text and how the pieces are spelled.
var pieces = []struct{ text, spelled string }{
	{"t", "t"}, {"\\n", marked("\\n")}, {"\\\"", marked("\\\"")}, {"\\'", marked("\\'")}, {"\\\\", marked("\\\\")}, {"\\u00e9", marked("\\u00e9")}, {"\\u0001f600", marked("\\u0001f600")},
	{"${ x }", "${x}"}, {"%{x}", "%{x}"}, {"$${", "$${"}, {"%%{", "%%{"}, {"$", "$"}, {"%", "%"}, {"{", "{"}, {"}", "}"}, {"é", "é"}, {"//", "//"}, {"#", "#"},
	{"/*", "/*"}, {"\n", "\n"}, {"${x + 'y}'}", "${(x+\"y}\")}"}, {"${f(\"z\")}", "${(f(\"z\"))}"}, {"%{\"${x}\"}", "%{\"${x}\"}"}, {"${ x[1] }", "${(x[1])}"}, {"${x[x]}", "${(x[x])}"}, {" ", " "}, {"\t", "\t"}, {"if", "if"}, {"\\é", marked("\\é")}, {"\\😀", marked("\\😀")},
}

// Pieces: any sequence of pieces, in both kinds of quotes.
//
//verif prop=C18 panic=* PIECES=2 reach=string
//verif prop=C18 panic=* PIECES=3 tier=thorough reach=string
func Pieces() {
	n := v.Param("PIECES")
	quotes := []string{"\"", "'"}
	q := quotes[v.Choose("quote", 2)]
	body, want := "", ""
	last := ""
	for i := 0; i < n; i++ {
		k := v.Case()
		if i > 0 {
			k = v.Choose("piece", len(pieces), i)
		}
		p := pieces[k]
		if p.spelled == "" {
			return
		}
		// pieces that would combine with the ones before them
		if (last == "$" || last == "%") && (p.text[0] == last[0] || p.text == "{") || last == "\\u00e9" && p.text == "" {
			return
		}
		body += p.text
		want += p.spelled
		last = p.text
	}
	text := "r = " + q + body + q + "\nz = 1\n"
	v.ObsStr("text", text)
	s := stringOf(text)
	v.Reach("string")
	v.Assert(s != nil, "C18:a string is accepted")
	if s != nil {
		v.Assert(spell(s) == want, "C18:the pieces of a string spell its content")
	}
}

func PiecesCases() int { return len(pieces) }

// QuotesInside: a quote within an embedded expression does not end the string.
//
//verif prop=C18 panic=* reach=string
func QuotesInside() {
	outer := []string{"\"", "'"}[v.Case()%2]
	inner := []string{"\"", "'"}[v.Case()/2]
	b := v.Byte("b")
	v.Assume(v.And(v.And(b != '\\', b != '$'), v.And(b != '%', b != inner[0])))
	mark := []string{"${", "%{"}[v.Choose("mark", 2)]
	in := string([]byte{b})
	text := "r = " + outer + "a" + mark + inner + in + inner + "}c" + outer + "\n"
	v.ObsStr("text", text)
	s := stringOf(text)
	v.Reach("string")
	v.Assert(s != nil && len(s.Fragment) == 3, "C18:a quote inside an embedded expression does not end the string")
	if s != nil && len(s.Fragment) == 3 {
		e := s.Fragment[1].Expr
		if mark == "%{" {
			e = s.Fragment[1].Directive
		}
		v.Assert(e != nil, "C18:an embedded expression is in its place")
		if e != nil {
			p := operand(e)
			v.Assert(p != nil && p.Value != nil && p.Value.Str != nil, "C18:the string inside the string")
			if p != nil && p.Value != nil && p.Value.Str != nil {
				v.Assert(spell(p.Value.Str) == in, "C18:the string inside the string")
			}
		}
		v.Assert(s.Fragment[0].Text == "a" && s.Fragment[2].Text == "c", "C18:the text around an embedded expression")
	}
}

func QuotesInsideCases() int { return 4 }
