package hetx

import (
	"reflect"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// heredocEnd tells whether the delimiter stands at i as a word of its own.
func wordAt(s string, i int, delim string) bool {
	if len(s)-i < len(delim) || s[i:i+len(delim)] != delim {
		return false
	}
	j := i + len(delim)
	return j == len(s) || !isWord(s[j])
}

// ending is what an independent reading of a heredoc's lines finds.
type ending struct {
	at     int  // where the line that ends the heredoc starts
	found  bool // there is such a line
	plain  bool // nothing but text, escaped markers, ${x} and %{x}, and no line that starts with the delimiter and goes on
	inside bool // the delimiter stands within a line, directly after an embedded expression or an escaped marker
}

// readHeredoc looks for the first line that consists of the delimiter.
func readHeredoc(s, delim string) (e ending) {
	e.plain = true
	i := 0
	for i < len(s) {
		if wordAt(s, i, delim) {
			j := i + len(delim)
			if j < len(s) && s[j] != '\n' {
				e.plain = false
				return e
			}
			e.at, e.found = i, true
			return e
		}
		for i < len(s) && s[i] != '\n' {
			c := s[i]
			switch {
			case (c == '$' || c == '%') && i+2 < len(s) && s[i+1] == c && s[i+2] == '{':
				i += 3
			case (c == '$' || c == '%') && i+1 < len(s) && s[i+1] == '{':
				if !(i+3 < len(s) && s[i+2] == 'x' && s[i+3] == '}') {
					e.plain = false
					return e
				}
				i += 4
			default:
				i++
				continue
			}
			if wordAt(s, i, delim) {
				e.inside = true
			}
		}
		i++
	}
	return e
}

// heredocOf gives the heredoc that is the value of an attribute.
func heredocOf(item *etx.RootItem) *etx.Heredoc {
	if item.Attribute == nil || item.Attribute.Value == nil {
		return nil
	}
	p := operand(item.Attribute.Value)
	if p == nil || p.Value == nil {
		return nil
	}
	return p.Value.Heredoc
}

func spellHeredoc(h *etx.Heredoc) string {
	out := ""
	for _, f := range h.Fragments {
		kinds := 0
		if f.Text != "" {
			out += f.Text
			kinds++
		}
		if f.Expr != nil {
			out += "${" + groupingOf(f.Expr) + "}"
			kinds++
		}
		if f.Directive != nil {
			out += "%{" + groupingOf(f.Directive) + "}"
			kinds++
		}
		v.Assert(kinds == 1, "C19:a piece of a heredoc is of one kind")
	}
	return out
}

// checkHeredoc reads the lines after an opening line in both ways. The lines end with a line that consists of the
// delimiter and z = 1.
func checkHeredoc(dash bool, delim, body string) {
	open := "<<"
	if dash {
		open = "<<-"
	}
	lines := body + "\n" + delim + "\nz = 1\n"
	text := "a = " + open + delim + "\n" + lines
	v.ObsStr("text", text)
	e := readHeredoc(lines, delim)
	if !e.plain || !e.found {
		return
	}
	whole := e.at == len(body)+1 || len(body) == 0
	if !whole && e.at < len(lines)-len(delim)-9 {
		v.Reach("ends early")
		if len(body)-e.at > len(delim)+3 {
			return // what follows the heredoc is read as anything at all
		}
	}
	if e.inside {
		v.Reach("delimiter inside a line")
	}
	ast, err := etx.ParseString(text)
	if err != nil || len(ast.Items) == 0 || heredocOf(ast.Items[0]) == nil {
		if e.inside {
			v.Assert(false, "C19:a delimiter within a line, directly after an embedded expression or an escaped marker, does not end a heredoc")
			return
		}
		// what follows a heredoc that ended early may be anything
		v.Assert(!whole, "C19:a heredoc is accepted")
		return
	}
	h := heredocOf(ast.Items[0])
	want := lines[:e.at]
	got := spellHeredoc(h)
	if e.inside {
		v.Assert(got == want, "C19:a delimiter within a line, directly after an embedded expression or an escaped marker, does not end a heredoc")
		return
	}
	v.Reach("heredoc")
	v.Assert(got == want, "C19:the pieces of a heredoc spell its lines")
	v.Assert(h.Delimiter.Delimiter == delim && h.Delimiter.LeadingTabs == dash, "C19:the delimiter is kept")
	if whole {
		again, err := etx.ParseString("z = 1\n")
		v.Assert(err == nil && len(again.Items) >= 1, "C19:the text after a heredoc is read as usual")
		last := ast.Items[len(ast.Items)-1]
		first := again.Items[0]
		v.Assert(last.Attribute != nil && first.Attribute != nil, "C19:the text after a heredoc is read as usual")
		if last.Attribute != nil && first.Attribute != nil {
			v.Assert(dumpNode(last.Attribute, false, false) == dumpNode(first.Attribute, false, false), "C19:the text after a heredoc is read as usual")
		}
	}
}

var heredocContexts = [][2]string{
	{"", ""}, {"t", "t"}, {"t\n", "\nt"}, {"E", ""}, {"", "E"}, {"\t", "\t"}, {"$", "{"}, {"%%", "x"}, {"${x}", "${x}"}, {"%{x}\n", "%{x}"}, {"$", "$"},
	{"\\", "\\"}, {"\"", "'"}, {"é", "é"}, {"//", "*/"}, {"EOF\n", "\nE"}, {"$${", "}"},
}

// Heredocs: any bytes within the lines of a heredoc.
//
//verif prop=C19 panic=* BYTES=2 reach=heredoc
//verif prop=C19 panic=* BYTES=3 tier=thorough reach=heredoc
func Heredocs() {
	n := v.Param("BYTES")
	c := heredocContexts[v.Case()/2]
	delim := []string{"E", "EOF"}[v.Case()%2]
	dash := v.Bool("dash")
	b := []byte(c[0])
	for i := 0; i < n; i++ {
		b = append(b, v.Byte("b", i))
	}
	b = append(b, c[1]...)
	checkHeredoc(dash, delim, string(b))
}

func HeredocsCases() int { return 2 * len(heredocContexts) }

// Delimiters: any delimiter of a few word characters, with lines that look like it.
//
//verif prop=C19 panic=* LEN=1 ALL=0 tier=quick reach=heredoc
//verif prop=C19 panic=* LEN=1 ALL=1 tier=thorough reach=heredoc
func Delimiters() {
	n := v.Param("LEN")
	pre := []string{"", "EO", ""}[v.Case()%3]
	post := []string{"", "F", "9"}[v.Case()%3]
	dash := v.Case()/3 == 1
	b := []byte(pre)
	for i := 0; i < n; i++ {
		c := v.Byte("d", i)
		v.Assume(isWord(c))
		b = append(b, byte(v.Conc(int(c))))
	}
	b = append(b, post...)
	d := string(b)
	x := v.Byte("x")
	v.Assume(isWord(x))
	longer := d + string([]byte{x})
	body := []string{"", longer, " " + d, "x" + d + "\n" + d + longer, "$" + d, longer + "\n" + longer, "t", "\t" + d + "\nt", d + d, "${x} " + d, "<<" + d, "$" + d, "%" + d, d[:len(d)-1]}
	if v.Param("ALL") == 0 {
		body = body[:5]
		if dash {
			body = body[1:3]
		}
	}
	checkHeredoc(dash, d, body[v.Choose("body", len(body))])
}

func DelimitersCases() int { return 6 }

// heredocPieces are what bodies are put together from, with their source text and how they are spelled.
var heredocPieces = []struct{ text, spelled string }{
	{"t", "t"}, {"\n", "\n"}, {"${ x }", "${x}"}, {"%{x}", "%{x}"}, {"$${", "$${"}, {"%%{", "%%{"}, {"$", "$"}, {"%", "%"}, {"{", "{"}, {"}", "}"}, {" ", " "}, {"EOFX", "EOFX"}, {"EO", "EO"},
	{"\"", "\""}, {"'", "'"}, {"\\n", "\\n"}, {"\\u00e9", "\\u00e9"}, {"é", "é"}, {"//", "//"}, {"#", "#"}, {"/*", "/*"}, {"<<E\n", "<<E\n"}, {"${x + 'y}'}", "${(x+\"y}\")}"}, {"%{f(\"${x}\")}", "%{(f(\"${x}\"))}"}, {"\t", "\t"},
	{"\r", "\r"}, {"${x[x]}", "${(x[x])}"},
}

// HeredocPieces: any sequence of pieces, and what may follow the heredoc.
//
//verif prop=C19 panic=* PIECES=2 ALL=0 tier=quick reach=heredoc
//verif prop=C19 panic=* PIECES=2 ALL=1 tier=thorough reach=heredoc
//verif prop=C19 panic=* PIECES=3 ALL=0 tier=thorough reach=heredoc
func HeredocPieces() {
	n := v.Param("PIECES")
	sum := 0
	body, want, last := "", "", ""
	for i := 0; i < n; i++ {
		k := v.Case()
		if i > 0 {
			k = v.Choose("piece", len(heredocPieces), i)
		}
		p := heredocPieces[k]
		sum += k
		// pieces that would combine with the ones before them
		if (last == "$" || last == "%") && (p.text[0] == last[0] || p.text == "{") || last == "EO" && p.text[0] == 'E' {
			return
		}
		body += p.text
		want += p.spelled
		last = p.text
	}
	x := v.Byte("x")
	v.Assume(v.And(x >= 'a', x <= 'z'))
	name := string([]byte{x}) + "0"
	follow := []string{"\n" + name + " = 1\n", "\n// c\n" + name + " = 1\n", " // c\n" + name + " = 1\n", "\n\n" + name + " = 1", "\n" + name + " {\n}\n"}
	k := sum % len(follow)
	if v.Param("ALL") == 1 {
		k = v.Choose("follow", len(follow))
	}
	text := "a = <<EOF\n" + body + "\nEOF" + follow[k]
	v.ObsStr("text", text)
	ast, err := etx.ParseString(text)
	v.Reach("heredoc")
	v.Assert(err == nil, "C19:a heredoc is accepted")
	if err != nil {
		return
	}
	h := heredocOf(ast.Items[0])
	v.Assert(h != nil, "C19:a heredoc is accepted")
	if h == nil {
		return
	}
	v.Assert(spellHeredoc(h) == want+"\n", "C19:the pieces of a heredoc spell its lines")
	found := 0
	for _, it := range ast.Items[1:] {
		switch {
		case it.Attribute != nil:
			v.Assert(k < 4 && it.Attribute.Key == name, "C19:the text after a heredoc is read as usual")
			found++
		case it.Block != nil:
			v.Assert(k == 4 && it.Block.Name == name, "C19:the text after a heredoc is read as usual")
			found++
		case it.Comment != nil:
			found++
		}
	}
	wantItems := 1
	if k == 1 || k == 2 {
		wantItems = 2
	}
	v.Assert(found == wantItems, "C19:the text after a heredoc is read as usual")
}

func HeredocPiecesCases() int { return len(heredocPieces) }

// within are the places that a heredoc may stand in, and what comes after its delimiter.
var within = [][2]string{
	{"a = [", "\n]\n"}, {"a = [1, ", "\n, 2]\n"}, {"a = f(", "\n)\n"}, {"a = f(", "\n, 1)\n"}, {"a = {k = ", "\n}\n"}, {"a = b ? ", "\n : c\n"}, {"a = b + ", "\n"}, {"b {\na = ", "\n}\n"}, {"def f() {\n", "\n}\n"},
	{"val a = ", "\n"}, {"a = (", "\n)\n"}, {"a = ", "\n"}, {"a = ", ""}, {"a = [", "]\n"}, {"a = f(", ", 1)\n"}, {"a = (", ")\n"},
}

// HeredocPlaces: a heredoc means the same wherever a value may stand.
//
//verif prop=C19,C21,C22 panic=* reach=heredoc
func HeredocPlaces() {
	x := v.Byte("x")
	v.Assume(v.Not(v.Or(v.Or(x == '$', x == '%'), v.Or(x == '\n', x == 'E'))))
	body := string([]byte{x}) + "EOF\n"
	p := within[v.Case()]
	text := p[0] + "<<EOF\n" + body + "EOF" + p[1]
	v.ObsStr("text", text)
	ast, err := etx.ParseString(text)
	if err != nil {
		v.Reach("rejected")
		// the same text with a plain value in place of the heredoc
		_, err = etx.ParseString(p[0] + "1" + p[1])
		v.Assert(err != nil, "C19:a heredoc is a value like others")
		return
	}
	v.Reach("heredoc")
	found := 0
	all(ast, func(n, _ etx.Node, _ reflect.Value, _ bool) {
		if h, ok := n.(*etx.Heredoc); ok {
			found++
			v.Assert(spellHeredoc(h) == body, "C19:the pieces of a heredoc spell its lines")
		}
	})
	v.Assert(found == 1, "C19:a heredoc is in its place")
	for _, p := range []string{"C21", "C22"} {
		if v.Is(p) {
			checkRoundTrip(ast, p)
		}
	}
}

func HeredocPlacesCases() int { return len(within) }

// knownHeredoc is the text that a heredoc is formatted as at present, which is not right: see FormatHeredoc.
func knownHeredoc(h *etx.Heredoc) string {
	return "<<" + h.Delimiter.FormattedString() + formattedFragments(h) + "\n" + h.Delimiter.Delimiter
}

func formattedFragments(h *etx.Heredoc) string {
	s := ""
	for _, f := range h.Fragments {
		switch {
		case f.Expr != nil:
			s += "${ " + f.Expr.FormattedString() + " }"
		case f.Directive != nil:
			s += "%{ " + f.Directive.FormattedString() + " }"
		default:
			s += f.Text
		}
	}
	return s
}

// mendHeredocs puts the right text in place of the known one for every heredoc in a formatted tree, so that the rest of
// the text can be judged. It gives "" when a heredoc is formatted otherwise.
func mendHeredocs(text string, ast *etx.AST) string {
	all(ast, func(n, _ etx.Node, _ reflect.Value, _ bool) {
		h, ok := n.(*etx.Heredoc)
		if !ok || text == "" {
			return
		}
		known := knownHeredoc(h)
		for d := 0; d < 6; d++ {
			if i := strings.Index(text, known); i >= 0 {
				text = text[:i] + "<<" + h.Delimiter.FormattedString() + "\n" + formattedFragments(h) + h.Delimiter.Delimiter + text[i+len(known):]
				return
			}
			// one level deeper
			deep := ""
			for i := 0; i < len(known); i++ {
				deep += known[i : i+1]
				if known[i] == '\n' && i+1 < len(known) && known[i+1] != '\n' {
					deep += "\t"
				}
			}
			known = deep
		}
		text = ""
	})
	return text
}

// FormatHeredoc: a formatted heredoc means the same. One way in which it does not is known: the line break after the
// opening delimiter is missing, and one is added before the closing one.
//
//verif prop=C21 panic=* PIECES=2 reach=same
func FormatHeredoc() {
	n := v.Param("PIECES")
	k := v.Case()
	open := []string{"<<EOF", "<<-EOF"}[v.Choose("dash", 2)]
	body, last := "", ""
	for i := 0; i < n; i++ {
		j := k
		if i > 0 {
			j = v.Choose("piece", len(heredocPieces), i)
		}
		p := heredocPieces[j]
		if last == "EO" && p.text[0] == 'E' {
			return
		}
		body += p.text
		last = p.text
	}
	body += "\n"
	if v.Bool("empty") {
		body = ""
	}
	text := "a = " + open + "\n" + body + "EOF\n"
	v.ObsStr("text", text)
	ast, err := etx.ParseString(text)
	if err != nil || len(ast.Items) == 0 {
		return
	}
	h := heredocOf(ast.Items[0])
	if h == nil {
		return
	}
	formatted := ast.FormattedString()
	v.ObsStr("formatted", formatted)
	again, err := etx.ParseString(formatted)
	if err == nil && (&same{parens: true}).trees(again, ast) == "" {
		v.Reach("same")
		return
	}
	known := knownHeredoc(h)
	v.Assert(h.FormattedString() == known, "C21:a heredoc means the same when formatted")
	v.Assert(len(h.Fragments) == 0, "C21:a heredoc with text means the same when formatted")
	v.Assert(len(h.Fragments) != 0, "C21:an empty heredoc means the same when formatted")
}

func FormatHeredocCases() int { return len(heredocPieces) }
