package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// fmtSpec is one formatting directive.
type fmtSpec struct {
	plus, minus, space, zero, hash bool
	width, prec                    int // -1: absent
	verb                           byte
}

func (f fmtSpec) String() string {
	s := "%"
	for _, p := range []struct {
		b bool
		c string
	}{{f.plus, "+"}, {f.minus, "-"}, {f.space, " "}, {f.zero, "0"}, {f.hash, "#"}} {
		if p.b {
			s += p.c
		}
	}
	if f.width >= 0 {
		s += fmt.Sprint(f.width)
	}
	if f.prec >= 0 {
		s += fmt.Sprintf(".%d", f.prec)
	}
	return s + string(f.verb)
}

func parseSpec(s string) fmtSpec {
	f := fmtSpec{width: -1, prec: -1, verb: s[len(s)-1]}
	i := 1
	for ; strings.IndexByte("+- 0#", s[i]) >= 0; i++ {
		switch s[i] {
		case '+':
			f.plus = true
		case '-':
			f.minus = true
		case ' ':
			f.space = true
		case '0':
			f.zero = true
		case '#':
			f.hash = true
		}
	}
	num := func() int {
		n := 0
		for s[i] >= '0' && s[i] <= '9' {
			n = n*10 + int(s[i]-'0')
			i++
		}
		return n
	}
	if s[i] >= '0' && s[i] <= '9' {
		f.width = num()
	}
	if s[i] == '.' {
		i++
		f.prec = num()
	}
	return f
}

// roundDigits rounds n to p significant digits (p >= 1), padding with zeros.
func roundDigits(r ref.Round, n ref.Num, p int) (string, int) {
	d := n.C.String()
	e := n.E
	if len(d) > p {
		c := ref.Shr(r, n.Neg, n.C, len(d)-p)
		e += len(d) - p
		d = c.String()
		if len(d) > p {
			d = d[:p]
			e++
		}
	} else if len(d) < p {
		e -= p - len(d)
		d += strings.Repeat("0", p-len(d))
	}
	return d, e
}

// fmtModel is the documented output of the directive.
func fmtModel(f fmtSpec, x ref.Num, payload uint64, r ref.Round, goMode bool) string {
	var s string
	if x.K != ref.Fin {
		switch {
		case !goMode:
			s = ref.Text(x)
			if x.IsNaN() && payload != 0 {
				s += fmt.Sprint(payload)
			}
		case x.IsNaN():
			s = "NaN"
		case x.Neg:
			s = "-Inf"
		default:
			s = "+Inf"
		}
		if f.verb == 'q' {
			s = quote(f, s)
		}
		return pad(f, s, false)
	}
	sign := ""
	if f.verb != 'q' {
		if f.plus {
			sign = "+"
		} else if f.space {
			sign = " "
		}
	}
	if x.Neg && !(goMode && x.IsZero()) {
		sign = "-"
	}
	e := "E"
	if goMode {
		e = "e"
	}
	var d string
	var exp int
	if f.prec < 0 || f.verb == 'f' || f.verb == 'F' {
		d, exp = x.C.String(), x.E
	} else {
		d, exp = roundDigits(r, x, f.prec)
	}
	adj := exp + len(d) - 1
	plain := func() string {
		if strings.Trim(d, "0") == "" {
			return ref.Plain("0", exp)
		}
		return ref.Plain(d, exp)
	}
	switch f.verb {
	case 's', 'd', 'v', 'q':
		if exp <= 0 && adj >= -6 {
			s = plain()
		} else {
			s = ref.Sci(d, adj, e)
		}
	case 'e':
		s = ref.Sci(d, adj, "e")
	case 'E':
		s = ref.Sci(d, adj, "E")
	case 'f', 'F':
		if f.prec >= 0 {
			c := new(big.Int).Set(x.C)
			if -x.E > f.prec {
				c = ref.Shr(r, x.Neg, x.C, -x.E-f.prec)
			} else {
				c.Mul(c, ref.Pow10(x.E+f.prec))
			}
			d, exp = c.String(), -f.prec
		}
		s = plain()
	case 'g', 'G':
		s = plain()
	}
	if goMode && x.IsZero() && f.prec < 0 {
		s = "0"
	}
	s = sign + s
	if f.verb == 'q' {
		s = quote(f, s)
	}
	return pad(f, s, true)
}

func quote(f fmtSpec, s string) string {
	if f.hash {
		return "`" + s + "`"
	}
	return `"` + s + `"`
}

func pad(f fmtSpec, s string, num bool) string {
	n := f.width - len(s)
	if n <= 0 {
		return s
	}
	switch {
	case f.minus:
		return s + strings.Repeat(" ", n)
	case f.zero && num && f.verb != 'q':
		i := 0
		if strings.IndexByte("+- ", s[0]) >= 0 {
			i = 1
		}
		return s[:i] + strings.Repeat("0", n) + s[i:]
	}
	return strings.Repeat(" ", n) + s
}

func checkC12(c *Case) string {
	x := c.X.fresh()
	r := ref.Round(c.N)
	x.Context.RoundingMode = roundMap[r]
	goMode := c.M == 1
	if goMode {
		x.Context.OperatingMode = decimal.Go
	}
	got := fmt.Sprintf(c.S, x)
	var want string
	if c.Op == "verb" {
		want = "%!" + c.S[len(c.S)-1:] + "(*Big=" + x.String() + ")"
	} else {
		want = fmtModel(parseSpec(c.S), c.X.N, c.X.Payload, r, goMode)
	}
	if got != want {
		return fmt.Sprintf("format: got %q want %q", clip(got), clip(want))
	}
	if !sameBig(x, c.X) || x.Context.Conditions != 0 {
		return "operand changed: " + describe(x)
	}
	return ""
}

func exploreC12(w *Worker) {
	coefs := []string{"0", "1", "4", "5", "6", "9", "10", "15", "25", "45", "50", "51", "55", "95", "99", "100", "105", "125", "149", "150", "151", "250", "251", "449", "500", "501", "949", "950", "994", "995", "999", "1000", "12500", "12501", "99949", "99950", "99999", "100000", "1234567", "9999999", "999999999999999999", "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999", "12345678901234567890123456", "99999999999999999999999999995", "99999999999999999999999999994"}
	exps := append(rng(-12, 8), -45, -31, -30, -29, -28, -27, -26, -25, -20, -19, 25)
	precs := []int{-1, 1, 2, 3, 4, 5, 7, 10, 19, 20, 21, 28, 29, 30, 40}
	if w.Thorough() {
		coefs = dedup(append(append(coefs, smallCoefs...), bigCoefs(true)...))
		exps = append(rng(-45, 30), -60, 60)
		precs = append(rng(1, 42), -1)
	}
	xs := opds(coefs, exps, true, true)
	// (a) precision x rounding x verb, no flags
	for _, r := range allRounds {
		for i, x := range xs {
			if i%32 == 0 {
				w.skip = !w.Block()
			}
			if w.skip {
				continue
			}
			w.State()
			for m := 0; m < 2; m++ {
				for _, v := range "sdvqeEfFgG" {
					for _, p := range precs {
						w.Do(&Case{Op: "fmt", X: x, N: int(r), M: m, S: fmtSpec{prec: p, width: -1, verb: byte(v)}.String()})
					}
				}
				for _, v := range "fF" {
					w.Do(&Case{Op: "fmt", X: x, N: int(r), M: m, S: fmtSpec{prec: 0, width: -1, verb: byte(v)}.String()})
				}
			}
		}
	}
	// long numbers
	lx := opds(longCoefs(w.Thorough()), []int{-1301, -700, -310, -78, -1, 0, 3}, true, false)
	for _, r := range allRounds {
		for i, x := range lx {
			if i%16 == 0 {
				w.skip = !w.Block()
			}
			if w.skip {
				continue
			}
			w.State()
			for m := 0; m < 2; m++ {
				for _, v := range "svefFg" {
					for _, p := range []int{-1, 1, 63, 77, 100, 309, 1000, 1400} {
						w.Do(&Case{Op: "fmt", X: x, N: int(r), M: m, S: fmtSpec{prec: p, width: -1, verb: byte(v)}.String()})
					}
				}
			}
		}
	}
	w.skip = false
	// (b) every flag combination x widths x verbs
	fx := opds([]string{"0", "1", "95", "123456789", "18446744073709551616"}, []int{-25, -9, -7, -2, 0, 1, 12}, true, true)
	for i, x := range fx {
		if i%2 == 0 {
			w.skip = !w.Block()
		}
		if w.skip {
			continue
		}
		for fl := 0; fl < 32; fl++ {
			for _, v := range "sdvqeEfFgG" {
				for _, width := range []int{-1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 30, 40, 64} {
					for _, p := range []int{-1, 1, 2, 6} {
						f := fmtSpec{plus: fl&1 != 0, minus: fl&2 != 0, space: fl&4 != 0, zero: fl&8 != 0, hash: fl&16 != 0, width: width, prec: p, verb: byte(v)}
						if v == 'v' && (f.plus || f.hash) {
							continue // the struct forms
						}
						if x.N.K != ref.Fin && (f.plus || f.space) {
							continue // sign flags on specials are not documented
						}
						w.State()
						for m := 0; m < 2; m++ {
							w.Do(&Case{Op: "fmt", X: x, M: m, S: f.String()})
						}
					}
				}
			}
		}
		for _, v := range "abchijklmnortuxyzABCDHIJKLMNOPQRSTUVWXYZ!" {
			if v == 'T' || v == 'w' {
				continue // handled by package fmt
			}
			w.Do(&Case{Op: "verb", X: x, S: "%" + string(v)})
		}
	}
}

func init() {
	register(&Prop{
		ID:      "C12",
		Check:   checkC12,
		Explore: exploreC12,
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "boundary coefficients x 78 exponents x signs and specials x 10 verbs x precisions none,1..42 x 7 rounding modes x 2 operating modes; 38 values x all 32 flag sets x 18 widths x 4 precisions x 10 verbs; every unsupported verb letter"
			}
			return "48 coefficients x 32 exponents x signs and specials x 10 verbs x 15 precisions x 7 rounding modes x 2 operating modes; 76 values x all 32 flag sets x 18 widths x 4 precisions x 10 verbs; every unsupported verb letter"
		},
	})
}
