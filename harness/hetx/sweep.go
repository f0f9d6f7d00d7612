package hetx

import "github.com/hexbee-net/etxe/pkg/zzverif/v"

// docs are the texts that the sweeps modify.
var docs = []string{
	"val a = 1 + b[2].c(3)\n",
	"/*c*/ blk x \"l\" {\n a = 'p${q}r'\n}\n",
	"def f(x: t, y) r {\n val z = x\n if y { 1 } else { 2 }\n}\n",
	"type t enum {\n A: 1\n Bc: d\n}\n",
	"type o object {\n a: b // c\n\n d: e\n}\n",
	"x = switch k { case 1: {a} default: {b} }\n",
	"l = {k = [1, -2], \"b\": (c ? !d : e)}\n",
	"a = <<EOF\nt ${x}\nEOF\nb = 1\n",
	"const n: t = 0x1F // e\ninput i: t\n",
	"def g(h: (a) -> b, i) (c, d) {}\n",
	"b {\n // c\n\n d {\n  e: a => 2.5\n }\n}\n",
	"v = \"\\u00e9\\n$${\" == ~c << 3 && -1.e\n",
}

// segments is the number of cases a text is split into.
const segments = 4

// Sweep: every text, with any one of its bytes replaced by any byte, or any byte put in (EDIT=1).
//
//verif prop=C11 EDIT=0 cases=0-15 tier=quick
//verif prop=C11 EDIT=0 tier=thorough
//verif prop=C12,C13,C14,C20,C21,C22 EDIT=0
//verif prop=C10 panic=C10 EDIT=0
//verif prop=C10 panic=C10 EDIT=1 tier=thorough
//verif prop=C11,C12,C13,C14,C20,C21,C22 EDIT=1 tier=thorough
func Sweep() {
	d := docs[v.Case()/segments]
	s := v.Case() % segments
	from, to := len(d)*s/segments, len(d)*(s+1)/segments
	k := from + v.Choose("at", to-from)
	b := []byte(d[:k])
	b = append(b, v.Byte("b"))
	if v.Param("EDIT") == 0 {
		k++
	}
	b = append(b, d[k:]...)
	checkText(string(b))
}

func SweepCases() int { return segments * len(docs) }
