package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/sql/postgres"

	"verif/mc/ref"
)

// C14: interchange with databases (the decomposer interface and the
// PostgreSQL driver wrapper).

func checkC14(c *Case) string {
	switch c.Op {
	case "decompose":
		return checkDecompose(c)
	case "compose":
		return checkCompose(c)
	case "pgvalue":
		return checkPgValue(c)
	case "pgscan":
		return checkPgScan(c)
	}
	return "unknown op"
}

func numEq(a, b ref.Num) bool {
	if a.K != ref.Fin || b.K != ref.Fin {
		return a.K == b.K
	}
	if a.IsZero() || b.IsZero() {
		return a.IsZero() == b.IsZero()
	}
	return a.Neg == b.Neg && ref.Cmp(a, b) == 0
}

func checkDecompose(c *Case) (msg string) {
	x := c.X.B
	n := c.X.N
	var buf []byte
	if c.N >= 0 {
		buf = make([]byte, c.N, c.N+c.M)
		for i := range buf[:cap(buf)] {
			buf[:cap(buf)][i] = 0xAA
		}
	}
	fits := n.K != ref.Fin || n.E >= math.MinInt32 && n.E <= math.MaxInt32
	var form byte
	var neg bool
	var coef []byte
	var exp int32
	refused := func() (r bool) {
		defer func() {
			if e := recover(); e != nil {
				r = true
				if fits {
					panic(e)
				}
			}
		}()
		form, neg, coef, exp = x.Decompose(buf)
		return false
	}()
	if !sameBig(x, c.X) {
		return "operand: Decompose changed its receiver"
	}
	if refused {
		return ""
	}
	got := ref.Num{Neg: neg, E: int(exp)}
	switch form {
	case 0:
		got.K = ref.Fin
		got.C = new(big.Int).SetBytes(coef)
	case 1:
		got.K = ref.Inf
	case 2:
		got.K = ref.QNaN
	default:
		return fmt.Sprintf("form: %d", form)
	}
	if n.IsNaN() {
		if form != 2 {
			return fmt.Sprintf("form: %d for NaN", form)
		}
		return ""
	}
	if got.K != n.K {
		return fmt.Sprintf("form: got %d for %s", form, n)
	}
	if n.K == ref.Inf && got.Neg != n.Neg {
		return fmt.Sprintf("sign: got negative=%v for %s", neg, n)
	}
	if n.K == ref.Fin && !numEq(got, n) {
		return fmt.Sprintf("value: got (%v, %x, %d) want %s", neg, coef, exp, n)
	}
	// The returned coefficient must stay valid and the value independent of
	// it.
	keep := append([]byte(nil), coef...)
	if form == 0 {
		y := dirtyZ(c.Dirty)
		if err := y.Compose(form, neg, coef, exp); err != nil {
			return "roundtrip: Compose refuses what Decompose returned: " + err.Error()
		}
		if m := canonical(y); m != "" {
			return "roundtrip: " + m
		}
		if g := numOf(y); !numEq(g, n) || g.E != n.E {
			return fmt.Sprintf("roundtrip: got %s want %s", g, n)
		}
		if !bytes.Equal(keep, coef) {
			return "roundtrip: Compose changed the coefficient"
		}
		for i := range coef {
			coef[i] ^= 0xFF
		}
		if !sameBig(x, c.X) {
			return "operand: the coefficient returned by Decompose shares the value's storage"
		}
		if g := numOf(y); !numEq(g, n) {
			return "sharing: Compose retained the coefficient"
		}
	}
	return ""
}

func checkCompose(c *Case) string {
	coef, err := hex.DecodeString(c.S)
	if err != nil {
		return err.Error()
	}
	if c.S == "" && c.T == "nil" {
		coef = nil
	}
	keep := append([]byte(nil), coef...)
	z := dirtyZ(c.Dirty)
	z.Context = c.C.D
	z.Context.Conditions = 0
	ctx := z.Context
	form, neg, exp := byte(c.M>>1), c.M&1 == 1, int32(c.N)
	for round := 0; round < 2; round++ {
		e := z.Compose(form, neg, coef, exp)
		if !bytes.Equal(keep, coef) {
			return "coefficient: changed by Compose"
		}
		cc := z.Context
		cc.Conditions = 0
		if cc != ctx {
			return "context: changed by Compose"
		}
		if form > 2 {
			if e == nil {
				return "form: an unknown form is accepted"
			}
			continue
		}
		if e != nil {
			// a value the library can hold
			return "error: " + e.Error()
		}
		got := numOf(z)
		switch form {
		case 0:
			want := ref.Num{K: ref.Fin, Neg: neg, C: new(big.Int).SetBytes(keep), E: int(exp)}
			if m := canonical(z); m != "" {
				return m
			}
			if !numEq(got, want) || got.E != want.E {
				return fmt.Sprintf("value: got %s want %s", got, want)
			}
			if z.Context.Conditions != 0 {
				return fmt.Sprintf("conditions: %s", z.Context.Conditions)
			}
		case 1:
			if got.K != ref.Inf || got.Neg != neg {
				return fmt.Sprintf("value: got %s for an infinity, negative=%v", got, neg)
			}
		case 2:
			// whatever the receiver held before
			if got.K != ref.QNaN || z.Payload() != 0 {
				return fmt.Sprintf("value: got %s payload %d for NaN", got, uint64(z.Payload()))
			}
		}
		for i := range coef {
			coef[i] ^= 0xFF
		}
		if again := numOf(z); form == 0 && (again.E != got.E || again.C.Cmp(got.C) != 0) {
			return "sharing: Compose retained the coefficient"
		}
		for i := range coef {
			coef[i] ^= 0xFF
		}
	}
	return ""
}

// pgCoef builds a coefficient of n digits following a pattern.
func pgCoef(pat string, n int) string {
	switch pat {
	case "9":
		return strings.Repeat("9", n)
	case "1":
		return "1" + strings.Repeat("0", n-1)
	case "3":
		return strings.Repeat("3", n)
	}
	// "k:tail": nines with the given digits at and after position k
	var k int
	var tl string
	if _, err := fmt.Sscanf(pat, "%d:%s", &k, &tl); err != nil {
		panic(pat)
	}
	if k > n {
		k = n
	}
	s := strings.Repeat("9", k) + tl
	if len(s) > n {
		return s[:n]
	}
	return s + strings.Repeat("0", n-len(s))
}

func pgParse(s string) (ref.Num, error) {
	n := ref.Num{K: ref.Fin}
	if strings.HasPrefix(s, "-") {
		n.Neg = true
		s = s[1:]
	}
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		if _, err := fmt.Sscanf(s[i+1:], "%d", &n.E); err != nil {
			return n, err
		}
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		n.E -= len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	var ok bool
	if n.C, ok = new(big.Int).SetString(s, 10); !ok {
		return n, errors.New("not a number")
	}
	return n, nil
}

const (
	pgInt  = postgres.MaxIntegralDigits
	pgFrac = postgres.MaxFractionalDigits
)

func checkPgValue(c *Case) string {
	round := c.Alias == "round"
	if c.S == "nil" {
		d := &postgres.Decimal{Round: round, Zero: c.T == "zero"}
		v, err := d.Value()
		if err != nil || c.T == "zero" && v != "0" || c.T != "zero" && v != nil {
			return fmt.Sprintf("nil: got %v %v", v, err)
		}
		return ""
	}
	var o *Opd
	if c.X != nil {
		o = c.X
	} else {
		co, _ := new(big.Int).SetString(pgCoef(c.S, c.N), 10)
		o = newOpd(ref.Num{K: ref.Fin, Neg: c.T == "-", C: co, E: -c.M}, 0)
	}
	x := o.fresh()
	x.Context = c.C.D
	before := x.Context
	d := &postgres.Decimal{V: x, Round: round, Zero: true}
	v, err := d.Value()
	if d.V != x || !sameBig(x, o) {
		return "operand: Value changed the decimal"
	}
	if x.Context != before {
		return fmt.Sprintf("operand: Value changed the decimal's context (%s)", x.Context.Conditions)
	}
	if o.N.IsNaN() {
		if v != "NaN" || err != nil {
			return fmt.Sprintf("NaN: got %v %v", v, err)
		}
		return ""
	}
	if o.N.K == ref.Inf {
		if err == nil {
			return fmt.Sprintf("infinity: got %v", v)
		}
		return ""
	}
	n := o.N
	dl := ref.Digits(n.C)
	sl := -n.E
	il := dl - sl
	var le *postgres.LengthError
	if err != nil {
		if v != nil {
			return "error: a value is returned, too"
		}
		if !errors.As(err, &le) {
			return "error: " + err.Error()
		}
		if round {
			return "error: refused although rounding is allowed: " + err.Error()
		}
		switch {
		case le.Part == "integral" && il > pgInt && le.N == il:
		case le.Part == "fractional" && sl > pgFrac && le.N == sl:
		default:
			return fmt.Sprintf("error: %v for %d integral and %d fractional digits", err, il, sl)
		}
		return ""
	}
	if !round && (il > pgInt || sl > pgFrac) {
		return fmt.Sprintf("limits: %d integral and %d fractional digits accepted", il, sl)
	}
	s, ok := v.(string)
	if !ok {
		return fmt.Sprintf("type: %T", v)
	}
	got, perr := pgParse(s)
	if perr != nil {
		return fmt.Sprintf("text: %s: %v", clip(s), perr)
	}
	want := n
	uc := ref.Ctx{Prec: ref.Unlimited, Emax: maxScale, Emin: -maxScale, R: c.C.R}
	digits := func() {
		if k := ref.Digits(want.C) - pgInt; k > 0 {
			cc := ref.Shr(uc.R, want.Neg, want.C, k)
			want = ref.Num{K: ref.Fin, Neg: want.Neg, C: cc, E: want.E + k}
			want = ref.Strip(want, maxScale)
		}
	}
	switch {
	case il > pgInt:
		digits()
	case sl > pgFrac:
		q := ref.Num{K: ref.Fin, Neg: n.Neg, E: -pgFrac}
		k := sl - pgFrac
		switch {
		case k <= dl+1:
			q.C = ref.Shr(uc.R, n.Neg, n.C, k)
		case n.IsZero():
			q.C = new(big.Int)
		default: // far below half a unit
			q.C = ref.Shr(uc.R, n.Neg, big.NewInt(1), 2)
		}
		want = q
		if ref.Digits(q.C)-pgFrac > pgInt {
			digits()
		}
	}
	if !numEq(got, want) {
		return fmt.Sprintf("value: got %s want %s", clip(s), clip(want.String()))
	}
	// "It ensures the decimal fits inside the limits": no digits past the
	// maximum fractional ones, at most the maximum of significant ones.
	if -got.E > pgFrac {
		return fmt.Sprintf("limits: %d fractional digits returned", -got.E)
	}
	if g := ref.Digits(got.C) + got.E; g > pgInt && ref.Digits(ref.Strip(got, maxScale).C) > pgInt {
		return fmt.Sprintf("limits: %d integral digits returned", g)
	}
	return ""
}

func checkPgScan(c *Case) string {
	d := &postgres.Decimal{}
	z := new(decimal.Big)
	if c.Dirty >= 0 {
		d.V = dirtyZ(c.Dirty)
		if c.C != nil {
			d.V.Context = c.C.D
		}
	}
	_ = z
	old := d.V
	var err error
	s := c.S
	switch c.T {
	case "string":
		err = d.Scan(s)
	case "bytes":
		b := []byte(s)
		err = d.Scan(b)
		if string(b) != s {
			return "bytes: Scan changed its argument"
		}
		for i := range b {
			b[i] = '7'
		}
	default:
		for _, v := range []interface{}{int64(1), 1.5, true, nil, struct{}{}, new(decimal.Big), []rune("1")} {
			if d.Scan(v) == nil {
				return fmt.Sprintf("type: %T accepted", v)
			}
		}
		return ""
	}
	if old != nil && d.V != old {
		return "receiver: Scan replaced V"
	}
	e := expectText(s)
	if m := checkParse(s, e, d.V, err != nil); m != "" {
		return "Scan: " + m
	}
	if err == nil && e.ok && e.n.K == ref.Fin && !e.far {
		// what Value returns is read back
		v, verr := d.Value()
		if verr != nil {
			n := e.n
			if -n.E <= pgFrac && ref.Digits(n.C)+n.E <= pgInt {
				return "Value: " + verr.Error()
			}
			return ""
		}
		var back postgres.Decimal
		if err := back.Scan(v); err != nil {
			return "roundtrip: " + err.Error()
		}
		if g := numOf(back.V); !numEq(g, numOf(d.V)) {
			return fmt.Sprintf("roundtrip: got %s want %s", g, numOf(d.V))
		}
	}
	return ""
}

func exploreC14(w *Worker) {
	th := w.Thorough()
	// decompose, with every buffer size
	coefs := ints(0, 300)
	if th {
		coefs = ints(0, 70000)
	}
	for k := 0; k <= 200; k++ {
		b := new(big.Int).Lsh(big.NewInt(1), uint(k))
		for d := int64(-2); d <= 2; d++ {
			s := new(big.Int).Add(b, big.NewInt(d))
			if s.Sign() >= 0 {
				coefs = append(coefs, s.String())
			}
		}
	}
	for k := 0; k <= 60; k++ {
		coefs = append(coefs, addS(pow10s(k), -1), pow10s(k), addS(pow10s(k), 1))
	}
	coefs = dedup(append(coefs, longCoefs(th)...))
	exps := []int{math.MinInt32 - 1, math.MinInt32, math.MinInt32 + 1, -40, -20, -1, 0, 1, 7, 40, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, maxScale, -maxScale, 1 << 32, -1 << 32, 1<<32 + 5}
	for i, s := range coefs {
		if !w.Block() {
			continue
		}
		for _, o := range opds([]string{s}, exps, true, i == 0) {
			w.State()
			for n := -1; n <= 10; n++ {
				for _, m := range []int{0, 1, 7, 8, 30} {
					w.Do(&Case{Op: "decompose", X: o, N: n, M: m, Dirty: (n + 1) % 6})
				}
			}
		}
	}
	// compose: every coefficient of up to two bytes, edges of longer ones,
	// with leading zeros
	var bs [][]byte
	bs = append(bs, nil, []byte{})
	lim := 2
	for a := 0; a < 256; a++ {
		bs = append(bs, []byte{byte(a)})
		if a < 4 || a > 250 || th {
			for b := 0; b < 256; b++ {
				bs = append(bs, []byte{byte(a), byte(b)})
			}
		}
	}
	_ = lim
	lens := rng(3, 40)
	lens = append(lens, 64, 65, 127, 128, 129, 255, 256, 257, 500)
	for _, l := range lens {
		for _, f := range []byte{0, 1, 0x7F, 0x80, 0xFF} {
			for _, t := range []byte{0, 1, 0xFE, 0xFF} {
				for z := 0; z <= 3; z++ {
					b := bytes.Repeat([]byte{t}, l)
					for i := 0; i < z && i < l; i++ {
						b[i] = 0
					}
					if z < l {
						b[z] = f
					}
					bs = append(bs, b)
				}
			}
		}
	}
	cxs := []*Cx{mkCx(0, 0, 0, ref.HalfEven), mkCx(1, 0, 0, ref.HalfEven), mkCx(3, 2, -2, ref.Up), mkCx(0, 0, 0, ref.Down).goMode(), mkCx(decimal.UnlimitedPrecision, 0, 0, ref.Floor)}
	for i, b := range bs {
		if !w.Block() {
			continue
		}
		w.State()
		t := ""
		if b == nil {
			t = "nil"
		}
		for _, cx := range cxs {
			for _, e := range []int{math.MinInt32, -100, -3, 0, 2, 100, math.MaxInt32} {
				for m := 0; m < 8; m++ {
					for _, dd := range []int{i % 6, (i + 1) % 6, (i + 3) % 6} {
						w.Do(&Case{Op: "compose", C: cx, S: hex.EncodeToString(b), T: t, M: m, N: e, Dirty: dd})
					}
				}
				w.Do(&Case{Op: "compose", C: cx, S: hex.EncodeToString(b), T: t, M: 511, N: e})
			}
		}
	}
	// PostgreSQL values around both limits
	rcx := []*Cx{}
	for _, r := range allRounds {
		rcx = append(rcx, mkCx(0, 0, 0, r))
	}
	rcx = append(rcx, mkCx(3, 2, -2, ref.HalfEven), mkCx(decimal.UnlimitedPrecision, 0, 0, ref.HalfEven), mkCx(0, 0, 0, ref.HalfEven).goMode())
	type shape struct {
		d, s int
		pat  []string
	}
	var shapes []shape
	offs := []int{-1, 0, 1, 2}
	if th {
		offs = rng(-6, 40)
	}
	for _, o := range offs {
		// few integral digits, about the maximum of fractional ones
		for _, il := range []int{-pgFrac, -pgFrac + 1, -5, 0, 1, 3} {
			s := pgFrac + o
			if d := il + s; d > 0 {
				k := pgFrac + il // digits that stay
				if k < 0 {
					k = 0
				}
				shapes = append(shapes, shape{d, s, []string{"9", "1", fmt.Sprintf("%d:5", k), fmt.Sprintf("%d:49", k), fmt.Sprintf("%d:51", k), fmt.Sprintf("%d:1", k)}})
			}
		}
	}
	ioffs := []int{-1, 0, 1}
	if th {
		ioffs = rng(-3, 8)
	}
	for _, o := range ioffs {
		for _, s := range []int{0, 1, -1, pgFrac - 1, pgFrac, pgFrac + 1, -200000} {
			d := pgInt + o + s
			if d < 1 {
				d = 3
			}
			k := pgInt
			if o <= 0 {
				k = pgInt + o + pgFrac
			}
			shapes = append(shapes, shape{d, s, []string{"9", "1", fmt.Sprintf("%d:5", k), fmt.Sprintf("%d:51", k)}})
		}
	}
	for d := 1; d <= 25; d++ {
		for _, s := range []int{0, 3, pgFrac, pgFrac + 1, pgFrac + d - 1, pgFrac + d, pgFrac + d + 1, 20000, 1 << 31, maxScale, -pgInt + d - 1, -pgInt + d, -pgInt + d + 1, -(1 << 31), -maxScale} {
			k := d - (s - pgFrac)
			if k < 0 || k > d {
				k = 0
			}
			shapes = append(shapes, shape{d, s, []string{"9", "1", "3", fmt.Sprintf("%d:5", k), fmt.Sprintf("%d:51", k)}})
		}
	}
	for _, sh := range shapes {
		if sh.d-sh.s > maxScale {
			continue // beyond the library's range
		}
		if !w.Block() {
			continue
		}
		w.State()
		for pi, p := range sh.pat {
			for ci, cx := range rcx {
				if !th && sh.d > 30000 && ci != pi%len(rcx) && ci != 3 {
					continue
				}
				for _, sg := range []string{"", "-"} {
					if !th && sh.d > 30000 && sg == "-" && ci != 3 {
						continue
					}
					for _, al := range []string{"", "round"} {
						if al == "" && ci > 0 {
							continue
						}
						w.Do(&Case{Op: "pgvalue", C: cx, S: p, N: sh.d, M: sh.s, T: sg, Alias: al})
					}
				}
			}
		}
	}
	if w.Block() {
		for _, al := range []string{"", "round"} {
			w.Do(&Case{Op: "pgvalue", S: "nil", T: "zero", Alias: al})
			w.Do(&Case{Op: "pgvalue", S: "nil", Alias: al})
			for _, o := range append(specialOpds(), opds([]string{"0", "1"}, []int{-pgFrac - 1, -pgFrac, 0, pgInt - 1, pgInt}, true, false)...) {
				for _, cx := range rcx {
					w.Do(&Case{Op: "pgvalue", C: cx, X: o, Alias: al})
				}
			}
		}
		w.Do(&Case{Op: "pgscan", T: "types", Dirty: -1})
		w.Do(&Case{Op: "pgscan", T: "types", Dirty: 2})
	}
	// texts
	al, max := "019.-eNa", 5
	if th {
		max = 6
	}
	i := 0
	strs(w, al, max, func(s string) {
		i++
		for _, t := range []string{"string", "bytes"} {
			w.Do(&Case{Op: "pgscan", T: t, S: s, Dirty: -1})
			w.Do(&Case{Op: "pgscan", T: t, S: s, Dirty: i % 6})
			w.Do(&Case{Op: "pgscan", T: t, S: s, Dirty: i % 6, C: cxs[i%len(cxs)]})
		}
	})
}

func init() {
	register(&Prop{
		ID:        "C14",
		Technique: "explicit-state enumeration",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "Decompose: every coefficient 0..70000, 2^k+-2 for k<=200, 10^k+-1 for k<=60, x 18 exponents around the int32 and library limits x signs x 60 buffers; Compose: every coefficient of up to 2 bytes and edge patterns of 3..40 bytes with leading zeros x 7 exponents x 4 forms x signs x 5 receiver contexts x 3 receiver states, each composed twice; PostgreSQL Value: digit patterns with -6..40 digits around the fractional and -3..8 around the integral limit, 1..25 digits with scales up to the library's limits, x 10 contexts x signs x Round; Scan: all texts of up to 6 characters over 8 x 2 types x 3 receivers"
			}
			return "Decompose: every coefficient 0..300, 2^k+-2 for k<=200, 10^k+-1 for k<=60, x 18 exponents around the int32 and library limits x signs x 60 buffers; Compose: every coefficient of one byte, of two bytes starting 0..3 or 251..255, and edge patterns of 3..40 bytes with leading zeros x 7 exponents x 4 forms x signs x 5 receiver contexts x 3 receiver states, each composed twice; PostgreSQL Value: digit patterns with -1..2 digits around the fractional and -1..1 around the integral limit, 1..25 digits with scales up to the library's limits, x 10 contexts (3 for more than 30000 digits) x signs x Round; Scan: all texts of up to 5 characters over 8 x 2 types x 3 receivers"
		},
		Explore: exploreC14,
		Check:   checkC14,
		Assumptions: []string{
			"Signs of zeros and NaNs are optional in the decomposer interface and not compared.",
			"Decompose has no error result: refusing (panicking on) an exponent outside int32 is accepted, a wrong value is not.",
			"Value's rounding of numbers with too many integral digits keeps that many significant digits (as the repository's test pins down), so the magnitude stays.",
		},
	})
}
