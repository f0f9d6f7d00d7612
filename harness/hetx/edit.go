package hetx

import (
	"reflect"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// leaves lists the words of a tree, in order: names, literals, operators, the texts of strings and comments.
func leaves(s reflect.Value, out *[]string) {
	switch x := s.Addr().Interface().(type) {
	case *etx.Value:
		if x.Null {
			*out = append(*out, "null")
		}
	case *etx.ValueBool:
		if x.Value {
			*out = append(*out, "true")
		} else {
			*out = append(*out, "false")
		}
		return
	case *etx.ValueNumber:
		*out = append(*out, x.Source)
		return
	case *etx.ExprCase:
		if x.Default {
			*out = append(*out, "default")
		}
	case *etx.ExprConditional:
		leaves(reflect.ValueOf(&x.Condition).Elem(), out)
		if x.ConditionOp {
			*out = append(*out, "?")
		}
		if x.TrueExpr != nil {
			leaves(reflect.ValueOf(x.TrueExpr).Elem(), out)
		}
		if x.FalseExpr != nil {
			leaves(reflect.ValueOf(x.FalseExpr).Elem(), out)
		}
		return
	}
	t := s.Type()
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i)
		if ft.Type == astNodeType || ft.Name == "EmptyLine" || placeholder(s, ft.Name) {
			continue
		}
		x := s.Field(i)
		switch x.Kind() {
		case reflect.String:
			if x.Len() > 0 {
				*out = append(*out, strings.TrimSpace(x.String()))
			}
		case reflect.Ptr:
			if !x.IsNil() && ft.Type.Elem() != floatType {
				leaves(x.Elem(), out)
			}
		case reflect.Struct:
			leaves(x, out)
		case reflect.Slice:
			for k := 0; k < x.Len(); k++ {
				y := x.Index(k)
				if y.Kind() == reflect.String {
					*out = append(*out, strings.TrimSpace(y.String()))
				} else if !y.IsNil() {
					leaves(y.Elem(), out)
				}
			}
		}
	}
}

// tokenDocs are documents as lists of tokens, in which every name and literal occurs once.
var tokenDocs = []string{
	"const a : t = 0x1F ↵ input b : ( u , w ) -> y ↵ output c ↵",
	"val a = b + 47 [ c ] * d . e ( f , 1.5 ) ↵ g = h ↵",
	"blk l1 \"s1\" { ↵ a = \"s2\" ↵ sub 'l2' l3 { ↵ b : c ↵ } ↵ // c1 ↵ d ↵ } ↵",
	"def f ( a : t , b ) r { ↵ val c : u = a1 ↵ const d = e ↵ g ( h ) ↵ # c1 ↵ ↵ i ↵ } ↵",
	"def f ( a : ( t ) -> u ) ( r , s ) { 47 ↵ } ↵ type w object { ↵ x : y ↵ ↵ z : ( k ) -> l ↵ } ↵",
	"type t enum { ↵ a : 47 ↵ // c1 ↵ b : \"s1\" ↵ c : d + e ↵ } ↵ def g ( ) { } ↵",
	"a = if b == c { d } else { e } ↵ f = g ↵",
	"a = switch b { case c : { d } case e , f : { g } default : { h } } ↵ i = j ↵",
	"a = { b = c , \"s1\" : d , /*c1*/ ↵ e : f } ↵ g = h ↵",
	"a = [ b , c ↵ , 47 , [ d , e ] , true , null ] ↵ f = g ↵",
	"a = b ? c : d || ! e && ( f - g ) ↵ h : - i << j ↵",
	"a = \"${b}\" + 'p${c}r' == b1 . f1 ( ) . k [ j ] ↵ d = f ↵",
}

// extras are the tokens that are put in.
var extras = []string{"zz", "9091", "\"zs\"", "{", "}", "(", ")", "[", "]", ",", ".", ":", "=", "+", "-", "?", "->", "↵", "if", "else", "case", "val", "default", "null", "/*zc*/", "=>", "/", "!=", "'%{zd}'"}

// words gives the words that a token stands for, and whether it may also stand for nothing.
func words1(tok string) (w []string, optional bool) {
	switch tok {
	case "if", "else", "switch", "case", "def", "type", "enum", "object":
		return []string{tok}, true
	case "{", "}", "(", ")", "[", "]", ",", ".", ":", "=", "->", "↵", "=>":
		return nil, false
	case "\"${b}\"":
		return []string{"b"}, false
	case "'p${c}r'":
		return []string{"p", "c", "r"}, false
	case "'%{zd}'":
		return []string{"zd"}, false
	}
	if tok[0] == '"' || tok[0] == '\'' {
		return []string{tok[1 : len(tok)-1]}, false
	}
	return []string{tok}, false
}

// Edits: a document in which one token was put in, left out, replaced, doubled or exchanged with the next one. If it
// is accepted, the tree holds all its words, in order.
//
//verif prop=C25 panic=C10 MORE=0 tier=quick reach=accepted,rejected
//verif prop=C25 panic=C10 MORE=1 tier=thorough reach=accepted,rejected
//verif prop=C10,C12,C14,C20,C21,C22 panic=C10 MORE=1 tier=thorough reach=accepted,rejected
func Edits() {
	toks := strings.Split(tokenDocs[v.Case()], " ")
	// a comment goes up to the line break
	for i := 0; i+1 < len(toks); i++ {
		if toks[i] == "//" || toks[i] == "#" {
			toks[i] += " " + toks[i+1]
			toks = append(toks[:i+1], toks[i+2:]...)
		}
	}
	n := len(extras)
	if v.Param("MORE") == 0 {
		n = 14
	}
	p := v.Choose("place", len(toks))
	kind := 0
	if v.Param("MORE") == 1 {
		kind = v.Choose("kind", 5)
	} else {
		kind = v.Choose("kind", 2)
	}
	var out []string
	switch kind {
	case 0: // put in
		out = append(append(append(out, toks[:p]...), extras[v.Choose("token", n)]), toks[p:]...)
	case 1: // left out
		out = append(append(out, toks[:p]...), toks[p+1:]...)
	case 2: // replaced
		out = append(append(append(out, toks[:p]...), extras[v.Choose("token", n)]), toks[p+1:]...)
	case 3: // doubled
		out = append(append(append(out, toks[:p+1]...), toks[p]), toks[p+1:]...)
	case 4: // exchanged
		if p+1 == len(toks) {
			return
		}
		out = append(append(append(out, toks[:p]...), toks[p+1], toks[p]), toks[p+2:]...)
	}
	text := ""
	var want []string
	var optional []bool
	line := false // the last token is a comment up to the line break
	for _, t := range out {
		if line && t != "↵" {
			return // part of the comment
		}
		line = t[0] == '#' || len(t) > 2 && t[:2] == "//"
		if t == "↵" {
			text += "\n"
			continue
		}
		text += t + " "
		if line {
			text = text[:len(text)-1]
		}
		w, o := words1(t)
		for _, x := range w {
			want = append(want, x)
			optional = append(optional, o)
		}
	}
	v.ObsStr("text", text)
	if !v.Is("C25") {
		checkText(text)
		return
	}
	ast, err := etx.ParseString(text)
	v.ObsBool("accepted", err == nil)
	if err != nil || ast == nil {
		v.Reach("rejected")
		return
	}
	v.Reach("accepted")
	var got []string
	for _, it := range ast.Items {
		leaves(reflect.ValueOf(it).Elem(), &got)
	}
	good := true
	i := 0
	for _, w := range got {
		for i < len(want) && want[i] != w && optional[i] {
			i++
		}
		if i == len(want) || want[i] != w {
			good = false
			break
		}
		i++
	}
	for good && i < len(want) {
		good = optional[i]
		i++
	}
	v.ObsStr("words", strings.Join(got, " "))
	v.Assert(good, "C25:the tree of an accepted text holds all its words")
}

func EditsCases() int { return len(tokenDocs) }
