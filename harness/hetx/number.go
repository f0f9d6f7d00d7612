package hetx

import (
	"math/big"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// literal is a number as it is written: any of the forms, with its digits.
type literal struct {
	base   int
	digits string // without separators
	frac   int    // how many of the digits stand behind the point
	exp    int
	source string // the source text to be retained
}

// exact gives the value of a literal by plain arithmetic on its digits.
func (l literal) exact() *big.Rat {
	n := new(big.Int)
	b := big.NewInt(int64(l.base))
	for i := 0; i < len(l.digits); i++ {
		c := l.digits[i]
		d := 0
		switch {
		case c <= '9':
			d = int(c - '0')
		case c >= 'a':
			d = int(c-'a') + 10
		default:
			d = int(c-'A') + 10
		}
		n.Mul(n, b)
		n.Add(n, big.NewInt(int64(d)))
	}
	e := l.exp - l.frac
	ten := big.NewInt(10)
	den := big.NewInt(1)
	for ; e > 0; e-- {
		n.Mul(n, ten)
	}
	for ; e < 0; e++ {
		den.Mul(den, ten)
	}
	return new(big.Rat).SetFrac(n, den)
}

func numberOf(text string) *etx.ValueNumber {
	ast, err := etx.ParseString("r = " + text + "\n")
	if err != nil || len(ast.Items) != 1 || ast.Items[0].Attribute == nil || ast.Items[0].Attribute.Value == nil {
		return nil
	}
	p := operand(ast.Items[0].Attribute.Value)
	if p == nil || p.Value == nil {
		return nil
	}
	return p.Value.Number
}

func isDecimal(c byte) bool { return c >= '0' && c <= '9' }

func isHex(c byte) bool { return isDecimal(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

// expectNumber compares what a text reads as with the literal it is.
func expectNumber(text string, l literal) {
	v.ObsStr("text", text)
	n := numberOf(text)
	v.Reach("number")
	v.Assert(n != nil && n.Value != nil, "C17:the literal is accepted")
	if n == nil || n.Value == nil {
		return
	}
	v.Assert(n.Source == l.source, "C17:the source text is retained")
	want := l.exact()
	got, _ := n.Value.Rat(nil)
	if got == nil {
		got = new(big.Rat)
	}
	if want.IsInt() {
		v.Assert(got.Cmp(want) == 0, "C17:an integer has exactly the value written")
		return
	}
	// the nearest value: off by less than one part in 2^52
	diff := new(big.Rat).Sub(got, want)
	diff.Abs(diff)
	diff.Mul(diff, new(big.Rat).SetInt64(1<<52))
	v.Assert(diff.Cmp(new(big.Rat).Abs(want)) <= 0, "C17:a fraction has the nearest value")
}

// digitsFrom makes symbolic digits of a base; upper case hexadecimal digits too.
func digitsFrom(base, n, at int) []byte {
	out := make([]byte, n)
	for i := range out {
		c := v.Byte("d", at+i)
		switch base {
		case 2:
			v.Assume(v.And(c >= '0', c <= '1'))
		case 8:
			v.Assume(v.And(c >= '0', c <= '7'))
		case 10:
			v.Assume(v.And(c >= '0', c <= '9'))
		default:
			v.Assume(v.Or(v.And(c >= '0', c <= '9'), v.Or(v.And(c >= 'a', c <= 'f'), v.And(c >= 'A', c <= 'F'))))
		}
		out[i] = c
	}
	return out
}

// each takes the possible values of the bytes one by one: the divisions by powers of ten behind a fraction are out of
// the solver's reach for symbolic digits.
func each(b []byte) []byte {
	for i := range b {
		b[i] = byte(v.Conc(int(b[i])))
	}
	return b
}

// separated inserts an underscore at one of the places where one may stand.
func separated(d string, from int) string {
	if len(d) < from+2 {
		return d
	}
	k := v.Choose("sep", len(d)-from)
	if k == 0 {
		return d
	}
	return d[:from+k] + "_" + d[from+k:]
}

// Integers: literals of every base with arbitrary digits, with and without separators.
//
//verif prop=C17 panic=* DIGITS=2 reach=number
//verif prop=C17 panic=* DIGITS=3 tier=thorough reach=number
func Integers() {
	n := v.Param("DIGITS")
	prefixes := []string{"", "0x", "0X", "0b", "0B", "0o", "0O", "0"}
	bases := []int{10, 16, 16, 2, 2, 8, 8, 8}
	k := v.Case()
	base := bases[k]
	if base == 2 {
		n += 2
	}
	d := string(digitsFrom(base, n, 0))
	if k == 0 {
		v.Assume(d[0] != '0')
	}
	text := prefixes[k] + separated(d, 0)
	src := text
	if k == 7 {
		src = "0o" + text[1:]
	}
	expectNumber(text, literal{base: base, digits: d, source: src})
}

func IntegersCases() int { return 8 }

// BigIntegers: long literals, with arbitrary digits at their ends.
//
//verif prop=C17 panic=* DIGITS=1 reach=number
//verif prop=C17 panic=* DIGITS=2 tier=thorough reach=number
func BigIntegers() {
	n := v.Param("DIGITS")
	k := v.Case()
	forms := []struct {
		prefix string
		base   int
		middle string
	}{
		{"", 10, "007199254740"},
		{"", 10, "2345678901234567"},
		{"", 10, "99999999999999999999999999999999999999"},
		{"", 10, "00000000000000000000000000000000000000000000000000000000000000000000000000000000000"},
		{"0x", 16, "fffffffffffff"},
		{"0x", 16, "00000000000000000000000000000000"},
		{"0b", 2, "1111111111111111111111111111111111111111111111111111111"},
		{"0o", 8, "777777777777777777"},
		{"0", 8, "000000000000000000000000"},
		{"", 10, "_844_674_407_370_955_16"},
		{"0x", 16, "_ffff_ffff_ffff_ffff_"},
	}
	f := forms[k]
	a := string(digitsFrom(f.base, n, 0))
	b := string(digitsFrom(f.base, n, 10))
	if f.base == 10 {
		v.Assume(a[0] != '0')
	}
	text := f.prefix + a + f.middle + b
	d := a
	for i := 0; i < len(f.middle); i++ {
		if f.middle[i] != '_' {
			d += f.middle[i : i+1]
		}
	}
	d += b
	src := text
	if f.prefix == "0" {
		src = "0o" + text[1:]
	}
	expectNumber(text, literal{base: f.base, digits: d, source: src})
}

func BigIntegersCases() int { return 11 }

// Decimals: fractions and exponents.
//
//verif prop=C17 panic=* reach=number
func Decimals() {
	d := string(each(digitsFrom(10, 2, 0)))
	a, b := d[:1], d[1:]
	switch v.Case() {
	case 0:
		expectNumber(a+"."+b, literal{base: 10, digits: d, frac: 1, source: a + "." + b})
	case 1:
		expectNumber("."+d, literal{base: 10, digits: d, frac: 2, source: "." + d})
	case 2:
		v.Assume(a != "0")
		expectNumber(a+"e"+b, literal{base: 10, digits: a, exp: int(b[0] - '0'), source: a + "e" + b})
	case 3:
		v.Assume(a != "0")
		expectNumber(a+"5E+1"+b, literal{base: 10, digits: a + "5", exp: 10 + int(b[0]-'0'), source: a + "5E+1" + b})
	case 4:
		expectNumber(a+".75e-"+b, literal{base: 10, digits: a + "75", frac: 2, exp: -int(b[0] - '0'), source: a + ".75e-" + b})
	case 5:
		v.Assume(a != "0")
		expectNumber(a+"1.2"+b+"e4", literal{base: 10, digits: a + "12" + b, frac: 2, exp: 4, source: a + "1.2" + b + "e4"})
	case 6:
		v.Assume(a != "0")
		expectNumber(a+"e2"+b, literal{base: 10, digits: a, exp: 20 + int(b[0]-'0'), source: a + "e2" + b})
	case 7:
		v.Assume(a != "0")
		expectNumber(a+"_1.2_"+b, literal{base: 10, digits: a + "12" + b, frac: 2, source: a + "_1.2_" + b})
	case 8:
		expectNumber("123456789012345678901234567890."+d, literal{base: 10, digits: "123456789012345678901234567890" + d, frac: 2, source: "123456789012345678901234567890." + d})
	case 9:
		v.Assume(a != "0")
		expectNumber(a+"000000000000000000000"+b+".0", literal{base: 10, digits: a + "000000000000000000000" + b + "0", frac: 1, source: a + "000000000000000000000" + b + ".0"})
	}
}

func DecimalsCases() int { return 10 }

// AnyNumber: any few characters that a number may be made of: if they are read as one number, it is the one written.
//
//verif prop=C17 panic=* LEN=4 reach=number
//verif prop=C17 panic=* LEN=5 tier=thorough reach=number
func AnyNumber() {
	n := v.Param("LEN")
	chars := "0179_.xXeEbBoOfA"
	first := "0178_."
	b := make([]byte, n)
	for i := range b {
		b[i] = v.Byte("b", i)
		if i == 0 {
			v.Assume(b[0] == first[v.Case()])
			continue
		}
		in := false
		for k := 0; k < len(chars); k++ {
			in = v.Or(in, b[i] == chars[k])
		}
		v.Assume(in)
	}
	for i := range b {
		if b[i] == '.' || i > 0 && v.Or(b[i] == 'e', b[i] == 'E') {
			b = each(b) // a fraction, or an exponent
			break
		}
	}
	text := string(b)
	v.ObsStr("text", text)
	v.Reach("number")
	num := numberOf(text)
	if num == nil || num.Value == nil {
		v.Assert(num == nil, "C17:a number has a value")
		return
	}
	// read the text again, independently
	l := literal{base: 10, source: text}
	rest := text
	if len(rest) > 1 && rest[0] == '0' {
		switch {
		case rest[1] == 'x' || rest[1] == 'X':
			l.base, rest = 16, rest[2:]
		case rest[1] == 'b' || rest[1] == 'B':
			l.base, rest = 2, rest[2:]
		case rest[1] == 'o' || rest[1] == 'O':
			l.base, rest = 8, rest[2:]
		default:
			whole := true
			for i := 0; i < len(rest); i++ {
				if !isDecimal(rest[i]) && rest[i] != '_' {
					whole = false
				}
			}
			if whole {
				l.base, rest = 8, rest[1:]
				l.source = "0o" + rest
			}
		}
	}
	point, good := false, true
	for i := 0; i < len(rest); i++ {
		c := rest[i]
		switch {
		case c == '_':
		case l.base == 10 && c == '.':
			good = good && !point
			point = true
		case l.base == 10 && (c == 'e' || c == 'E'):
			e := 0
			for _, d := range rest[i+1:] {
				if d != '_' {
					if d < '0' || d > '9' {
						good = false
						break
					}
					e = e*10 + int(d-'0')
				}
			}
			l.exp = e
			i = len(rest)
		case l.base == 16 && isHex(c), l.base != 16 && isDecimal(c) && int(c-'0') < l.base:
			l.digits += rest[i : i+1]
			if point {
				l.frac++
			}
		default:
			good = false
		}
	}
	v.Assert(good && len(l.digits) > 0, "C17:only well-formed literals are numbers")
	if good {
		v.Assert(num.Source == l.source, "C17:the source text is retained")
		want := l.exact()
		got, _ := num.Value.Rat(nil)
		if got == nil {
			got = new(big.Rat)
		}
		if want.IsInt() {
			v.Assert(got.Cmp(want) == 0, "C17:an integer has exactly the value written")
		}
	}
}

func AnyNumberCases() int { return 6 }
