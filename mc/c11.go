package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// The limits of what the library represents.
const maxScale = decimal.MaxScale

// textExpect is the outcome the numeric-string grammar prescribes.
type textExpect struct {
	ok      bool
	n       ref.Num
	payload uint64
	// far: the exponent is outside the library's limits, the value overflows
	// to infinity, underflows to zero, or (zeros) is clamped.
	far bool
}

func expectText(s string) textExpect {
	n, pl, ok := ref.ParseText(s)
	if !ok {
		return textExpect{}
	}
	e := textExpect{ok: true, n: n}
	if n.IsNaN() && pl != "" {
		v, err := strconv.ParseUint(pl, 10, 64)
		if err != nil {
			return textExpect{} // the payload does not fit: rejected
		}
		e.payload = v
	}
	if n.K == ref.Fin {
		e.far = n.E > maxScale || n.E < -2*maxScale
	}
	return e
}

func describe(z *decimal.Big) string {
	return fmt.Sprintf("%s (%s)", numOf(z), z.Context.Conditions)
}

// checkParse: one way of reading text, result z (nil when rejected).
func checkParse(s string, e textExpect, z *decimal.Big, rejected bool) string {
	if !e.ok {
		if rejected {
			return ""
		}
		if !z.IsNaN(+1) {
			return fmt.Sprintf("malformed: accepted as %s", describe(z))
		}
		if z.Context.Conditions&decimal.ConversionSyntax == 0 {
			return fmt.Sprintf("malformed: no conversion syntax condition: %s", describe(z))
		}
		if z.Payload() != 0 || z.Signbit() {
			return fmt.Sprintf("malformed: NaN carries left-over digits: %s payload %d", describe(z), uint64(z.Payload()))
		}
		return ""
	}
	if rejected {
		return "wellformed: rejected"
	}
	if s := canonical(z); s != "" {
		return s
	}
	got := numOf(z)
	if e.far {
		// overflow, underflow or a clamped zero, each with its conditions
		want := ref.Num{K: ref.Fin, Neg: e.n.Neg, C: new(big.Int)}
		var flags decimal.Condition
		switch {
		case e.n.IsZero():
			flags = decimal.Clamped
			want.E = maxScale
			if e.n.E < 0 {
				want.E = -maxScale
			}
		case e.n.E > 0:
			flags = decimal.Overflow | decimal.Inexact | decimal.Rounded
			want.K = ref.Inf
		default:
			flags = decimal.Underflow | decimal.Inexact | decimal.Rounded | decimal.Subnormal
			want.E = got.E // at or below the least exponent
			if got.E > -maxScale || got.E < -2*maxScale {
				return fmt.Sprintf("far: underflow to %s", describe(z))
			}
		}
		if !ref.Same(got, want) || z.Context.Conditions != flags {
			return fmt.Sprintf("far: got %s want %s (%s)", describe(z), want, flags)
		}
		return ""
	}
	if !ref.Same(got, e.n) {
		return fmt.Sprintf("value: got %s want %s", describe(z), e.n)
	}
	if got.IsNaN() && uint64(z.Payload()) != e.payload {
		return fmt.Sprintf("payload: got %d want %d", uint64(z.Payload()), e.payload)
	}
	if z.Context.Conditions != 0 {
		return fmt.Sprintf("conditions: %s", z.Context.Conditions)
	}
	return ""
}

// dirtyPool provides receivers holding every kind of earlier value.
func dirtyZ(i int) *decimal.Big {
	z := new(decimal.Big)
	switch i {
	case 1:
		z.SetMantScale(-12345, 7)
	case 2:
		z.SetBigMantScale(new(big.Int).Lsh(big.NewInt(-3), 200), -9)
	case 3:
		z.SetInf(true)
	case 4:
		z.SetNaN(true)
		c, _ := decimal.Raw(z)
		*c = 99
		z.SetSignbit(true)
	case 5:
		z.SetBigMantScale(new(big.Int).SetUint64(inflated), 3)
	}
	return z
}

func checkC11(c *Case) string {
	switch c.Op {
	case "read":
		s := c.S
		e := expectText(s)
		z := dirtyZ(c.Dirty)
		r, ok := z.SetString(s)
		if ok && r != z {
			return "SetString: returned another pointer"
		}
		if !ok && r != nil {
			return "SetString: failed without returning nil"
		}
		if m := checkParse(s, e, z, !ok); m != "" {
			return "SetString " + m
		}
		if m := decimal.Regexp.FindString(s) == s && s != ""; m != (e.ok || strings.Contains(strings.ToLower(s), "nan") && okNaNDigits(s)) {
			return fmt.Sprintf("Regexp: matches=%v", m)
		}
		if c.Dirty == 0 {
			u := new(decimal.Big)
			err := u.UnmarshalText([]byte(s))
			if m := checkParse(s, e, u, err != nil); m != "" {
				return "UnmarshalText " + m
			}
			if isPlainASCII(s) {
				j := new(decimal.Big)
				err = j.UnmarshalJSON([]byte(`"` + s + `"`))
				if m := checkParse(s, e, j, err != nil); m != "" {
					return "UnmarshalJSON " + m
				}
				if e.ok && s != "" && s[0] != '+' {
					j = new(decimal.Big)
					err = j.UnmarshalJSON([]byte(s))
					if m := checkParse(s, e, j, err != nil); m != "" {
						return "UnmarshalJSON(bare) " + m
					}
				}
			}
		}
		return ""
	case "write":
		return checkWrite(c)
	case "ctx":
		return checkCtxRead(c)
	}
	return "unknown op"
}

// okNaNDigits: a NaN whose payload is too long is valid text for the Regexp
// although the value cannot be held.
func okNaNDigits(s string) bool {
	_, _, ok := ref.ParseText(s)
	return ok
}

// checkCtxRead: reading with an explicit context rounds once to it.
func checkCtxRead(c *Case) string {
	e := expectText(c.S)
	z := dirtyZ(c.Dirty)
	r, ok := c.C.D.SetString(z, c.S)
	if !e.ok || e.n.K != ref.Fin {
		return checkParse(c.S, e, z, !ok)
	}
	if !ok || r != z {
		return fmt.Sprintf("ctx: returned %v, %v", r, ok)
	}
	want, wf := c.C.M.Fix(e.n)
	if got := numOf(z); !ref.Same(got, want) {
		return fmt.Sprintf("ctx: got %s want %s", got, want)
	}
	if f := condOf(z.Context.Conditions); f != wf {
		return fmt.Sprintf("ctx flags: got %s want %s", f, wf)
	}
	return canonical(z)
}

func isPlainASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' || s[i] < ' ' || s[i] > '~' {
			return false
		}
	}
	return true
}

// checkWrite: the canonical string form, and that reading it back yields the
// very same datum, through every reader and writer.
func checkWrite(c *Case) string {
	x := c.X.fresh()
	goMode := c.M == 1
	if goMode {
		x.Context.OperatingMode = decimal.Go
	}
	want := ref.Text(c.X.N)
	if c.X.N.IsNaN() && c.X.Payload != 0 {
		want += strconv.FormatUint(c.X.Payload, 10)
	}
	got := x.String()
	if goMode {
		switch {
		case c.X.N.IsNaN():
			want = "NaN"
		case c.X.N.K == ref.Inf:
			want = "+Inf"
			if c.X.N.Neg {
				want = "-Inf"
			}
		case c.X.N.IsZero():
			want = got
			if n, _, ok := ref.ParseText(got); !ok || !n.IsZero() {
				return fmt.Sprintf("String: zero in Go mode is %q", got)
			}
		default:
			want = strings.ToLower(want)
		}
	}
	if got != want {
		return fmt.Sprintf("String: got %q want %q", clip(got), clip(want))
	}
	mt, err := x.MarshalText()
	if err != nil || string(mt) != want {
		return fmt.Sprintf("MarshalText: got %q, %v want %q", clip(string(mt)), err, clip(want))
	}
	jb, err := json.Marshal(x)
	if err != nil || string(jb) != `"`+want+`"` {
		return fmt.Sprintf("json: got %q, %v want %q", clip(string(jb)), err, clip(want))
	}
	exact := c.X.N
	for i, f := range []func(z *decimal.Big) error{
		func(z *decimal.Big) error {
			if _, ok := z.SetString(got); !ok {
				return fmt.Errorf("rejected")
			}
			return nil
		},
		func(z *decimal.Big) error { return z.UnmarshalText(mt) },
		func(z *decimal.Big) error { return json.Unmarshal(jb, z) },
	} {
		z := dirtyZ(c.Dirty)
		if err := f(z); err != nil {
			return fmt.Sprintf("roundtrip %d: %q: %v", i, clip(got), err)
		}
		r := numOf(z)
		if goMode && (exact.IsNaN() || exact.IsZero()) {
			if r.IsNaN() != exact.IsNaN() || r.IsZero() != exact.IsZero() {
				return fmt.Sprintf("roundtrip %d: got %s want %s", i, r, exact)
			}
			continue
		}
		if !ref.Same(r, exact) || r.IsNaN() && uint64(z.Payload()) != c.X.Payload {
			return fmt.Sprintf("roundtrip %d: %q gives %s want %s", i, clip(got), r, exact)
		}
		if z.Context.Conditions != 0 {
			return fmt.Sprintf("roundtrip %d: conditions %s", i, z.Context.Conditions)
		}
		if s := canonical(z); s != "" {
			return s
		}
		// the reader must not share storage with the writer
		if s := z.String(); !goMode && s != got {
			return fmt.Sprintf("roundtrip %d: second string %q, first %q", i, clip(s), clip(got))
		}
	}
	if !sameBig(x, c.X) || x.Context.Conditions != 0 {
		return fmt.Sprintf("operand changed: %s", describe(x))
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:140] + "..." + s[len(s)-140:]
	}
	return s
}

// strs calls f with every string over alpha of length 0..max that starts with
// the block's prefix.
func strs(w *Worker, alpha string, max int, f func(string)) {
	var rec func(b []byte)
	rec = func(b []byte) {
		f(string(b))
		if len(b) == max {
			return
		}
		for i := 0; i < len(alpha); i++ {
			rec(append(b, alpha[i]))
		}
	}
	if w.Block() {
		f("")
		for i := 0; i < len(alpha); i++ {
			f(alpha[i : i+1])
		}
	}
	for i := 0; i < len(alpha); i++ {
		for j := 0; j < len(alpha); j++ {
			if w.Block() {
				rec([]byte{alpha[i], alpha[j]})
			}
		}
	}
}

// farTexts: coefficients of every kind with exponents around the limits of the
// contexts, of the library and of the machine.
func farTexts() (t []string) {
	for _, m := range []string{"0", "-0.00", "1", "-9.99", "123456789012345678901234567890", "-99999999999999999999.5"} {
		for _, e := range []string{"5", "6", "7", "11", "12", "13", "999999999999999970", "999999999999999999", "1000000000000000000", "1000000000000000030", "1999999999999999999", "2000000000000000000", "4611686018427387903", "4611686018427387904", "9223372036854775807", "9223372036854775808", "99999999999999999999"} {
			for _, d := range []string{"e", "E-"} {
				t = append(t, m+d+e)
			}
		}
	}
	return t
}

func farCtx() []*Cx {
	c := cxs([]int{1, 3, 20}, 0, 0, allRounds)
	c = append(c, cxs([]int{1, 3, 20}, 12, -6, allRounds)...)
	return append(c, cxs([]int{7}, maxScale, -maxScale, allRounds)...)
}

func exploreC11(w *Worker) {
	read := func(s string) {
		w.State()
		w.Do(&Case{Op: "read", S: s})
	}
	n1, n2 := 7, 9
	if w.Thorough() {
		n1, n2 = 8, 10
	}
	// (a) all short strings over the characters of the grammar
	strs(w, "+-.05eEinfasqNx", n1-1, read)
	// (b) all numeric strings, longer
	strs(w, "+-.019e", n2, read)
	// (c) every single-character edit of long well-formed texts
	long := []string{"Infinity", "-Infinity", "+inf", "-inf", "infinity", "INFINITY", "iNfInItY", "NaN", "-NaN", "sNaN123", "+snan0", "qNaN45", "nan18446744073709551615", "nan18446744073709551616", "NaN99999999999999999999", "nan00000000000000000000000007", "123456.789e-12", "-0.00000001E+7",
		"18446744073709551615", "18446744073709551616", "-1844674407370955161.5", "99999999999999999999999999.9999999999", "000000000000000000000000000000000001", "0.000000000000000000000000000000000000", "1e999999999999999999", "1e-999999999999999999", "1e1000000000000000000", "-1e-1000000000000000000", "1e9223372036854775807", "1e-9223372036854775808", "1.5e9223372036854775807", "-1.5e-9223372036854775808", "1e18446744073709551615", "1e18446744073709551616", "0e99999999999999999999", "-0e-99999999999999999999", "0e999999999999999999999999999999999999", "1e00000000000000000000000000000000001", "12e+0000000000000000000000000000000000000002", ".5", "5.", "+.5e1", "0e9223372036854775807", "0e-9223372036854775808", "1.234567890123456789012345678e1000000000000000000", "12345.678e-999999999999999998", "12345.678e-999999999999999995"}
	edit := "+-.0159eEinfatysqNx _\x00\"\u00e9,"
	for _, s := range long {
		if !w.Block() {
			continue
		}
		read(s)
		for d := 0; d < 6; d++ {
			w.Do(&Case{Op: "read", S: s, Dirty: d})
		}
		for i := 0; i <= len(s); i++ {
			if i < len(s) {
				read(s[:i] + s[i+1:])
				read(s[:i])
			}
			for _, r := range edit {
				read(s[:i] + string(r) + s[i:])
				if i < len(s) {
					read(s[:i] + string(r) + s[i+1:])
				}
			}
		}
	}
	// the same texts, and exponents at and beyond every limit, under contexts
	for _, s := range append(long, farTexts()...) {
		if !w.Block() {
			continue
		}
		for i, cx := range farCtx() {
			w.Do(&Case{Op: "ctx", S: s, C: cx, Dirty: i % 6})
		}
	}
	for _, s := range farTexts() {
		read(s)
	}
	// (d) data: string form and the way back
	coefs := dedup(append(append([]string{}, smallCoefs...), bigCoefs(w.Thorough())...))
	exps := append(rng(-45, 45), -1000, 1000, 999999999999999999-60, -999999999999999999+1, -999999999999999999)
	xs := opds(coefs, exps, true, true)
	for i := uint64(1); i < 1<<62; i = i*7 + 3 {
		for _, k := range []ref.Kind{ref.QNaN, ref.SNaN} {
			xs = append(xs, newOpd(ref.Num{K: k, Neg: i&1 == 0}, i))
		}
	}
	xs = append(xs, newOpd(ref.Num{K: ref.QNaN}, inflated), newOpd(ref.Num{K: ref.SNaN}, inflated-1))
	xs = append(xs, opds(longCoefs(w.Thorough()), []int{-1301, -1000, -400, -70, -6, 0, 1, 50}, true, false)...)
	for i, x := range xs {
		if i%64 == 0 {
			w.skip = !w.Block()
		}
		if w.skip {
			continue
		}
		w.State()
		for d := 0; d < 6; d++ {
			w.Do(&Case{Op: "write", X: x, Dirty: d})
		}
		w.Do(&Case{Op: "write", X: x, M: 1})
	}
	// (f) the neighbourhood of every bound of the accumulating reader: word
	// maxima, their tenths and hundredths, powers of ten, with every last two
	// digits, every radix position, leading zeros
	var bases []*big.Int
	for _, b := range []uint{15, 31, 32, 53, 62, 63, 64, 65, 127, 128, 192} {
		v := new(big.Int).Lsh(big.NewInt(1), b)
		for j := 0; j < 4; j++ {
			bases = append(bases, new(big.Int).Set(v))
			v = new(big.Int).Quo(v, big.NewInt(10))
		}
	}
	for e := int64(17); e <= 21; e++ {
		bases = append(bases, new(big.Int).Exp(big.NewInt(10), big.NewInt(e), nil))
	}
	span := int64(60)
	if w.Thorough() {
		span = 600
	}
	for _, b := range bases {
		for d := -span; d <= span; d++ {
			v := new(big.Int).Add(b, big.NewInt(d))
			if v.Sign() < 0 {
				continue
			}
			if d%10 == 0 {
				w.skip = !w.Block()
			}
			if w.skip {
				continue
			}
			t := v.String()
			read(t)
			read("-000" + t)
			read(t + "E-3")
			for i := 0; i <= len(t); i += 1 + len(t)/8 {
				read("-" + t[:i] + "." + t[i:])
				read(t[:i] + "." + t[i:] + "0e5")
			}
			// the same digits as an exponent and as a payload
			for _, pre := range []string{"1e", "-1E-", "0e", "-0e-", "12.5e", "0.0005e-", "123e+00", "1.2345678901234567890e", "1234567890123456789012e-"} {
				read(pre + t)
			}
			read("NaN" + t)
			read("-sNaN00" + t)
		}
	}
	// (e) digit strings of every length across the word boundary, with every
	// position of the radix point
	maxLen := 45
	ctx := append(cxs([]int{1, 2, 3, 16, 19, 20, 34}, 0, 0, allRounds), cxs([]int{3, 20}, 12, -6, allRounds)...)
	for n := 1; n <= maxLen; n++ {
		for _, pat := range []string{"9", "1", "10", "18446744073709551615", "18446744073709551616", "5", "0", "01"} {
			if !w.Block() {
				continue
			}
			d := strings.Repeat(pat, n/len(pat)+1)[:n]
			read(d)
			for i := 0; i <= n; i++ {
				read(d[:i] + "." + d[i:])
				read("-" + d[:i] + "." + d[i:] + "E-7")
				read("+" + d[:i] + "." + d[i:] + "e+0030")
				read(d[:i] + "." + d[i:] + ".")
				read(d[:i] + "e" + d[i:])
				read(d[:i] + "e-" + d[i:])
				for _, cx := range ctx {
					w.Do(&Case{Op: "ctx", S: "-" + d[:i] + "." + d[i:] + "E-7", C: cx, Dirty: i % 6})
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:      "C11",
		Check:   checkC11,
		Explore: exploreC11,
		Bounds: func(tier string) string {
			n1, n2 := 6, 9
			if tier == "thorough" {
				n1, n2 = 7, 10
			}
			return fmt.Sprintf("every string of length <= %d over \"+-.05eEinfasqNx\" and <= %d over \"+-.019e\"; every one-character deletion, truncation, insertion and replacement of 46 long texts over 24 characters; every value within 60 of 2^k (11 k) over 1, 10, 100, 1000 and of 10^17..10^21 as a coefficient, exponent and payload; digit strings of every length 1..45 in 8 patterns with every radix position; 204 texts with exponents around the limits of the contexts, the library and the machine, and the long texts, under 49 contexts; strings and round trips of the boundary coefficients x 96 exponents x signs, specials and payloads, into six kinds of receivers, in both operating modes", n1, n2)
		},
	})
}
