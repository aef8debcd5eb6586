package props

import (
	"bytes"
	"math"
	"runtime"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C25",
		Level: "exploration",
		Rule:  "integers at and between all powers of two and ten in all decimal spellings, fractions within the precision of floating-point numbers, numbers with units, numbers out of range, text that is no number and arbitrary text; strings and byte slices of any content; non-trivial: the number has at least two digits, or the text at least two bytes",
		Subs: []pbt.Sub{
			{Name: "numbers", Quick: 1600000, Weight: 2, Fn: c25numbers},
			{Name: "text", Quick: 600000, Fn: c25text},
			{Name: "bytes", Quick: 400000, Fn: c25bytes},
		},
	})
}

func anyInt(t *pbt.T) int64 {
	var n int64
	switch t.Int(0, 5) {
	case 0:
		n = int64(t.Int(0, 200))
	case 1: // around powers of two
		n = int64(uint64(1)<<t.Int(0, 63)) + int64(t.Int(-2, 2))
	case 2: // around powers of ten
		n = 1
		for k := t.Int(0, 18); k > 0; k-- {
			n *= 10
		}
		n += int64(t.Int(-2, 2))
	case 3:
		return pbt.Pick[int64](t, math.MaxInt64, math.MinInt64, math.MaxInt64-1, math.MinInt64+1, 1<<53+1, -1<<53-1)
	default:
		n = int64(t.Draw(1<<63)) >> t.Int(0, 62)
	}
	if t.Bool() {
		n = -n
	}
	return n
}

func c25both(t *pbt.T, s string) (int64, error) {
	a, ea := docx.GetInt64(s)
	b, eb := docx.GetInt(s)
	if (ea == nil) != (eb == nil) {
		t.Failf("widths", "of %q, GetInt64 gives the error %v and GetInt %v", s, ea, eb)
	}
	if ea == nil && a != int64(b) {
		t.Failf("widths", "of %q, GetInt64 makes %d and GetInt %d", s, a, b)
	}
	return a, ea
}

func c25want(t *pbt.T, s string, want int64) {
	t.Logf("%q", s)
	if len(s) >= 2 {
		t.NonTrivial()
	}
	got, err := c25both(t, s)
	if err != nil {
		t.Failf("refused", "%q is refused: %v", s, err)
	}
	if got != want {
		t.Failf("value", "%q becomes %d, expected %d", s, got, want)
	}
}

func c25numbers(t *pbt.T) {
	n := anyInt(t)
	s := strconv.FormatInt(n, 10)
	if t.Chance(1, 8) { // zeros in front, or a plus
		sign := ""
		if s[0] == '-' {
			sign, s = "-", s[1:]
		} else if t.Bool() {
			sign = "+"
		}
		s = sign + strings.Repeat("0", t.Int(0, 5)) + s
	}
	unit := func() string {
		return pbt.Pick(t, "pt", "cm", "mm", "in", "%", " pt", "px", "em", "pc", "pi", "twips", "x", ";", ",5", " 7", "磅", "-3", "+1", "/2")
	}
	switch t.Weighted(4, 3, 3, 1) {
	case 0:
		c25want(t, s, n)
	case 1: // a fraction
		n %= 10_000_000_000_000
		neg := n < 0 || n == 0 && t.Bool()
		s = strconv.FormatInt(n, 10)
		if n == 0 && neg {
			s = "-0"
		}
		// few enough digits to be told from the next integer
		d := ""
		for k := t.Int(1, 8); k > 0 && len(s)+len(d) < 15; k-- {
			d += strconv.Itoa(t.Int(0, 9))
		}
		s += "." + d
		if t.Chance(1, 4) {
			k := strings.IndexByte(s, '.')
			s = s[:k+2] + unit2(t, unit, s[k+2:])
		}
		c25want(t, s, n)
	case 2:
		c25want(t, s+unit(), n)
	default: // out of range
		s = pbt.Pick(t, "", "-", "+") + pbt.Pick(t, "9223372036854775808", "18446744073709551616", "9999999999999999999", "1"+strings.Repeat("0", t.Int(19, 400)))
		if s == "-9223372036854775808" {
			return
		}
		if t.Chance(1, 4) {
			s += pbt.Pick(t, ".0", ".5", "")
		}
		t.Logf("%q", s)
		if v, err := c25both(t, s); err == nil {
			if !strings.HasPrefix(s, "-9223372036854775808") {
				t.Failf("range", "%q is out of range, but becomes %d", s, v)
			}
		}
		t.NonTrivial()
	}
}

// unit2 puts a unit behind the first digits of a fraction.
func unit2(t *pbt.T, unit func() string, rest string) string {
	return rest[:t.Int(0, len(rest))] + unit()
}

func c25text(t *pbt.T) {
	switch t.Weighted(2, 2) {
	case 0: // does not start with a number
		s := pbt.Pick(t, "", "-", "+", "abc", "pt12", "NaN", "nan", "inf", "Inf", "-inf", "+Infinity", "infinity", ".", "-.", "e5", "x1", "auto", "--1", "+-1", "-+1", "true", "#12", "$5", "٣", "½", "_1", "(1)")
		if s != "" && t.Bool() && !strings.ContainsAny(s[len(s)-1:], "+-.") && s != "_1" {
			s += pbt.Pick(t, "q", " 5", "pt")
		}
		t.Logf("%q", s)
		if len(s) >= 2 {
			t.NonTrivial()
		}
		if v, err := c25both(t, s); err == nil {
			t.Failf("accepted", "%q is no number, but becomes %d", s, v)
		}
	default: // anything
		s := docgen.Line(t, 6)
		if t.Bool() {
			s = pbt.Pick(t, "1", "-2", "0", "12", "3.5", "0x", "1e", "1_", " ") + s
		}
		t.Logf("%q", s)
		if len(s) >= 2 {
			t.NonTrivial()
		}
		c25both(t, s)
	}
}

func c25bytes(t *pbt.T) {
	b := docgen.Bytes(t)
	if t.Bool() {
		b = []byte(docgen.String(t, 8))
	}
	if t.Chance(1, 10) {
		b = nil
	}
	t.Logf("%s", docgen.Describe(b))
	if len(b) >= 2 {
		t.NonTrivial()
	}
	ref := string(b)
	// a part of the slice, with room behind it
	room := append(append(make([]byte, 0, len(b)+16), b...), "tail"...)
	s := docx.BytesToString(room[:len(b)])
	if s != ref {
		t.Failf("string", "BytesToString gives %q of %q", s, ref)
	}
	back := docx.StringToBytes(s)
	if !bytes.Equal(back, []byte(ref)) || len(back) != len(ref) {
		t.Failf("round-trip", "StringToBytes(BytesToString(%q)) is %q", ref, back)
	}
	i := t.Int(0, len(ref))
	j := t.Int(i, len(ref))
	x := docx.StringToBytes(ref[i:j])
	if string(x) != ref[i:j] || len(x) != j-i {
		t.Failf("bytes", "StringToBytes(%q) is %q", ref[i:j], x)
	}
	if y := docx.BytesToString(docx.StringToBytes(ref[i:j])); y != ref[i:j] {
		t.Failf("round-trip", "BytesToString(StringToBytes(%q)) is %q", ref[i:j], y)
	}
	x = append(x, 'z') // must not reach into the string
	if ref != string(b) || string(x) != ref[i:j]+"z" {
		t.Failf("bytes", "appending to StringToBytes(%q) gives %q and changes the string", ref[i:j], x)
	}
	if t.Chance(1, 2000) { // the result keeps the bytes alive
		k := docx.StringToBytes(strings.Repeat(ref, 2))
		runtime.GC()
		if string(k) != ref+ref {
			t.Failf("bytes", "StringToBytes(%q) does not last", ref+ref)
		}
	}
}
