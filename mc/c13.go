package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// ratOf is the exact value of a finite number.
func ratOf(n ref.Num) *big.Rat {
	a, b := new(big.Int).Set(n.C), big.NewInt(1)
	if n.Neg {
		a.Neg(a)
	}
	if n.E >= 0 {
		a.Mul(a, ref.Pow10(n.E))
	} else {
		b = ref.Pow10(-n.E)
	}
	return new(big.Rat).SetFrac(a, b)
}

// truncOf is the integral part of a finite number; ok is false when it has
// more than 400 digits.
func truncOf(n ref.Num) (*big.Int, bool) {
	if n.IsZero() {
		return new(big.Int), true
	}
	if n.E > 5000 {
		return nil, false
	}
	t := new(big.Int)
	switch {
	case n.E >= 0:
		t.Mul(n.C, ref.Pow10(n.E))
	case n.Adj() >= 0:
		t.Quo(n.C, ref.Pow10(-n.E))
	}
	if n.Neg {
		t.Neg(t)
	}
	return t, true
}

func checkC13(c *Case) string {
	switch c.Op {
	case "ints":
		return checkToInts(c)
	case "float64":
		return checkToFloat64(c)
	case "float":
		return checkToFloat(c)
	case "setfloat64":
		return checkSetFloat64(c)
	case "setfloat":
		return checkSetFloat(c)
	case "setrat":
		return checkSetRat(c)
	case "setint":
		return checkSetInt(c)
	}
	return "unknown op"
}

func (c *Case) operand() *decimal.Big {
	x := c.X.B
	if c.Alias == "go" {
		x = c.X.fresh()
		x.Context.OperatingMode = decimal.Go
	}
	return x
}

func checkToInts(c *Case) string {
	n, x := c.X.N, c.operand()
	fin := n.K == ref.Fin
	var t *big.Int
	have := false
	if fin {
		t, have = truncOf(n)
	}
	i, ok := x.Int64()
	wantOK := have && t.IsInt64()
	if ok != wantOK || ok && i != t.Int64() {
		return fmt.Sprintf("Int64: got %d %v, integral part %s, fits %v", i, ok, clip(fmt.Sprint(t)), wantOK)
	}
	u, ok := x.Uint64()
	wantOK = have && t.IsUint64()
	if fin && n.Neg && have && t.Sign() == 0 {
		// a negative number above -1: refused or zero
		if ok && u != 0 {
			return fmt.Sprintf("Uint64: got %d for a number that truncates to 0", u)
		}
	} else if ok != wantOK || ok && u != t.Uint64() {
		return fmt.Sprintf("Uint64: got %d %v, integral part %s, fits %v", u, ok, clip(fmt.Sprint(t)), wantOK)
	}
	if fin && have {
		for _, z := range []*big.Int{nil, big.NewInt(-12345), new(big.Int).Lsh(big.NewInt(1), 300)} {
			r := x.Int(z)
			if z != nil && r != z {
				return "Int: the result is not the receiver"
			}
			if r.Cmp(t) != 0 {
				return fmt.Sprintf("Int: got %s want %s", clip(r.String()), clip(t.String()))
			}
		}
	}
	if fin && n.E < 5000 && n.E > -5000 {
		q := ratOf(n)
		for _, z := range []*big.Rat{nil, big.NewRat(-12345, 678)} {
			r := x.Rat(z)
			if z != nil && r != z {
				return "Rat: the result is not the receiver"
			}
			if r.Cmp(q) != 0 {
				return fmt.Sprintf("Rat: got %s want %s", clip(r.String()), clip(q.String()))
			}
		}
	}
	if m, ok := x.Mantissa(); fin {
		w := n.C.IsUint64() && n.C.Uint64() != inflated
		if ok != w || ok && m != n.C.Uint64() {
			return fmt.Sprintf("Mantissa: got %d %v want %s %v", m, ok, n.C, w)
		}
	} else if ok {
		return "Mantissa: ok for a special value"
	}
	return unchanged(c)
}

func unchanged(c *Case) string {
	if !sameBig(c.X.B, c.X) {
		bad := numOf(c.X.B)
		c.X.B = mkBig(c.X.N, c.X.Payload)
		return fmt.Sprintf("operand changed: now %s", bad)
	}
	return ""
}

func checkToFloat64(c *Case) string {
	n, x := c.X.N, c.operand()
	f, ok := x.Float64()
	switch n.K {
	case ref.Inf:
		s := 1
		if n.Neg {
			s = -1
		}
		if !math.IsInf(f, s) || !ok {
			return fmt.Sprintf("Float64: got %v %v for %s", f, ok, n)
		}
		return unchanged(c)
	case ref.QNaN, ref.SNaN:
		if !math.IsNaN(f) || !ok {
			return fmt.Sprintf("Float64: got %v %v for %s", f, ok, n)
		}
		return unchanged(c)
	}
	var want float64
	exact := false
	switch a := n.Adj(); {
	case n.IsZero():
		exact = true
	case a > 400:
		want = math.Inf(1)
	case a < -400:
	default:
		want, exact = ratOf(ref.Abs(n)).Float64()
	}
	if n.Neg {
		want = math.Copysign(want, -1)
	}
	if math.Float64bits(f) != math.Float64bits(want) {
		return fmt.Sprintf("Float64: got %v want %v", f, want)
	}
	if exact && !ok {
		return fmt.Sprintf("Float64 ok: got false for the exact %v", f)
	}
	if ok && (math.IsInf(want, 0) || want == 0 && !n.IsZero()) {
		return fmt.Sprintf("Float64 ok: got true although the result is %v", f)
	}
	return unchanged(c)
}

var floatModes = []big.RoundingMode{big.ToNearestEven, big.ToNearestAway, big.ToZero, big.AwayFromZero, big.ToNegativeInf, big.ToPositiveInf}

// N: precision of the receiver (0: taken from the value), M: rounding mode.
func checkToFloat(c *Case) string {
	n, x := c.X.N, c.operand()
	var z *big.Float
	if c.N > 0 {
		z = new(big.Float).SetPrec(uint(c.N)).SetMode(floatModes[c.M])
		switch c.Dirty {
		case 1:
			z.SetInf(true)
		case 2:
			z.SetInt64(-77)
		}
	}
	r := x.Float(z)
	if z != nil && r != z {
		return "Float: the result is not the receiver"
	}
	if n.K == ref.Inf {
		if !r.IsInf() || r.Signbit() != n.Neg {
			return fmt.Sprintf("Float: got %v for %s", r, n)
		}
		return unchanged(c)
	}
	if n.K != ref.Fin {
		return unchanged(c)
	}
	if n.IsZero() {
		if r.Sign() != 0 || r.Signbit() != n.Neg {
			return fmt.Sprintf("Float: got %v for %s", r, n)
		}
		return unchanged(c)
	}
	q := ratOf(n)
	if c.N > 0 {
		if int(r.Prec()) != c.N || r.Mode() != floatModes[c.M] {
			return "Float: precision or mode of the receiver changed"
		}
		w := roundBinary(q, c.N, floatModes[c.M])
		g, _ := r.Rat(nil)
		if g == nil || g.Cmp(w) != 0 {
			return fmt.Sprintf("Float: got %s want %s", r.Text('p', 0), w)
		}
		return unchanged(c)
	}
	g, _ := r.Rat(nil)
	if w := roundBinary(q, int(r.Prec()), big.ToNearestEven); g == nil || g.Cmp(w) != 0 || r.Prec() < 53 {
		return fmt.Sprintf("Float(nil): got %s (precision %d) want %s", r.Text('p', 0), r.Prec(), w)
	}
	return unchanged(c)
}

// roundBinary rounds q to prec bits.
func roundBinary(q *big.Rat, prec int, m big.RoundingMode) *big.Rat {
	neg := q.Sign() < 0
	a, b := new(big.Int).Abs(q.Num()), new(big.Int).Set(q.Denom())
	// scale so that prec <= bits(a/b) <= prec+1, then decide the exact length
	e := a.BitLen() - b.BitLen() - prec
	if e > 0 {
		b.Lsh(b, uint(e))
	} else {
		a.Lsh(a, uint(-e))
	}
	if new(big.Int).Quo(a, b).BitLen() > prec {
		b.Lsh(b, 1)
		e++
	}
	d, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if d.BitLen() < prec {
		// one bit short: refine
		a.Lsh(a, 1)
		e--
		d.QuoRem(a, b, r)
	}
	half := r.Lsh(r, 1).Cmp(b)
	up := false
	if r.Sign() != 0 {
		switch m {
		case big.ToNearestEven:
			up = half > 0 || half == 0 && d.Bit(0) == 1
		case big.ToNearestAway:
			up = half >= 0
		case big.AwayFromZero:
			up = true
		case big.ToNegativeInf:
			up = neg
		case big.ToPositiveInf:
			up = !neg
		}
	}
	if up {
		d.Add(d, big.NewInt(1))
	}
	if neg {
		d.Neg(d)
	}
	w := new(big.Rat).SetInt(d)
	p := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(abs(e))))
	if e < 0 {
		return w.Quo(w, p)
	}
	return w.Mul(w, p)
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// exactly compares z with the sign and magnitude it was set from.
func exactly(z *decimal.Big, q *big.Rat, neg bool) string {
	if !z.IsFinite() {
		return fmt.Sprintf("value: got %s want %s", z, clip(q.String()))
	}
	g := numOf(z)
	if ratOf(ref.Abs(g)).Cmp(new(big.Rat).Abs(q)) != 0 {
		return fmt.Sprintf("value: got %s want %s", clip(g.String()), clip(q.String()))
	}
	if g.Neg != neg {
		return fmt.Sprintf("sign: got %v want %v", g.Neg, neg)
	}
	return canonical(z)
}

func checkSetFloat64(c *Case) string {
	b, err := strconv.ParseUint(c.S, 16, 64)
	if err != nil {
		return err.Error()
	}
	f := math.Float64frombits(b)
	z := dirtyZ(c.Dirty)
	if r := z.SetFloat64(f); r != z {
		return "result: not the receiver"
	}
	switch {
	case math.IsNaN(f):
		if !z.IsNaN(+1) || z.Signbit() != math.Signbit(f) {
			return fmt.Sprintf("value: got %s for %v", z, f)
		}
		return ""
	case math.IsInf(f, 0):
		s := 1
		if f < 0 {
			s = -1
		}
		if !z.IsInf(s) || z.Signbit() != (s < 0) {
			return fmt.Sprintf("value: got %s for %v", z, f)
		}
	default:
		if s := exactly(z, new(big.Rat).SetFloat64(f), math.Signbit(f)); s != "" {
			return s
		}
	}
	g, ok := z.Float64()
	if math.Float64bits(g) != b || !ok {
		return fmt.Sprintf("round trip: got %v %v want %v", g, ok, f)
	}
	return ""
}

// S: hexadecimal mantissa, N: binary exponent, M: precision, T: "-" for negative.
func checkSetFloat(c *Case) string {
	x := new(big.Float)
	neg := c.T == "-"
	q := new(big.Rat)
	if c.S == "inf" {
		x.SetInf(neg)
	} else {
		m, ok := new(big.Int).SetString(c.S, 16)
		if !ok {
			return "bad case"
		}
		x.SetPrec(uint(c.M)).SetInt(m)
		x.SetMantExp(x, c.N)
		if neg {
			x.Neg(x)
		}
		x.Rat(q)
	}
	before := x.Text('p', 0)
	bp := x.Prec()
	z := dirtyZ(c.Dirty)
	if r := z.SetFloat(x); r != z {
		return "result: not the receiver"
	}
	if x.Text('p', 0) != before || x.Prec() != bp {
		return "operand changed"
	}
	if c.S == "inf" {
		if !z.IsInf(0) || z.Signbit() != neg || z.IsNaN(0) {
			return fmt.Sprintf("value: got %s for %v", z, x)
		}
		return ""
	}
	if s := exactly(z, q, neg); s != "" {
		return s
	}
	// and back
	y := new(big.Float).SetPrec(bp)
	if bp == 0 {
		y.SetPrec(64)
	}
	if z.Float(y); y.Cmp(x) != 0 || y.Signbit() != x.Signbit() {
		return fmt.Sprintf("round trip: got %v want %v", y, x)
	}
	return ""
}

// S/T in context C.
func checkSetRat(c *Case) string {
	a, _ := new(big.Int).SetString(c.S, 10)
	b, _ := new(big.Int).SetString(c.T, 10)
	q := new(big.Rat).SetFrac(a, b)
	before := q.String()
	z := dirtyZ(c.Dirty)
	z.Context = c.C.D
	var r *decimal.Big
	if c.Alias == "method" {
		r = z.SetRat(q)
	} else {
		z.Context = decimal.Context{}
		r = c.C.D.SetRat(z, q)
	}
	if r != z {
		return "result: not the receiver"
	}
	if q.String() != before {
		return "operand changed"
	}
	var want ref.Num
	if q.IsInt() {
		want, _ = fixMode(c, ref.Num{K: ref.Fin, Neg: q.Sign() < 0, C: new(big.Int).Abs(q.Num())})
	} else {
		n := ref.Num{K: ref.Fin, Neg: q.Sign() < 0, C: new(big.Int).Abs(q.Num())}
		d := ref.Num{K: ref.Fin, C: q.Denom()}
		want, _ = c.C.M.Quo(n, d)
	}
	got := numOf(z)
	if got.K != want.K || got.K == ref.Fin && (ref.Cmp(got, want) != 0 || got.Neg != want.Neg) {
		return fmt.Sprintf("value: got %s want %s", got, want)
	}
	return canonical(z)
}

// S: the integer, N: the scale.
func checkSetInt(c *Case) string {
	v, _ := new(big.Int).SetString(c.S, 10)
	want := ref.Num{K: ref.Fin, Neg: v.Sign() < 0, C: new(big.Int).Abs(v), E: -c.N}
	var z, r *decimal.Big
	cmp := func(name string) string {
		if r != z {
			return name + ": the result is not the receiver"
		}
		if got := numOf(z); !ref.Same(got, want) {
			return fmt.Sprintf("%s: got %s want %s", name, got, want)
		}
		if s := canonical(z); s != "" {
			return name + ": " + s
		}
		return ""
	}
	z = dirtyZ(c.Dirty)
	keep := new(big.Int).Set(v)
	r = z.SetBigMantScale(v, c.N)
	if v.Cmp(keep) != 0 {
		return "SetBigMantScale: argument changed"
	}
	if s := cmp("SetBigMantScale"); s != "" {
		return s
	}
	v.Add(v, big.NewInt(1)) // the decimal must not share the argument's words
	if s := cmp("SetBigMantScale (argument modified later)"); s != "" {
		return s
	}
	v.Set(keep)
	if v.IsInt64() {
		z = dirtyZ(c.Dirty)
		r = z.SetMantScale(v.Int64(), c.N)
		if s := cmp("SetMantScale"); s != "" {
			return s
		}
		z = decimal.New(v.Int64(), c.N)
		r = z
		if s := cmp("New"); s != "" {
			return s
		}
	}
	if v.IsUint64() {
		z = dirtyZ(c.Dirty)
		want.E = 0
		r = z.SetUint64(v.Uint64())
		if s := cmp("SetUint64"); s != "" {
			return s
		}
		want.E = -c.N
		r = z.SetScale(c.N)
		if s := cmp("SetScale"); s != "" {
			return s
		}
		if z.Scale() != c.N {
			return "Scale: differs from the one set"
		}
		r = z.SetSignbit(true)
		want.Neg = true
		if s := cmp("SetSignbit"); s != "" {
			return s
		}
		r = z.SetSignbit(false)
		want.Neg = false
		if s := cmp("SetSignbit"); s != "" {
			return s
		}
	}
	return ""
}

// wordEdges are integers around the machine word and power of ten limits.
func wordEdges(d int64) []string {
	var out []string
	for _, k := range []uint{31, 32, 52, 53, 54, 55, 63, 64, 65, 127, 128} {
		b := new(big.Int).Lsh(big.NewInt(1), k).String()
		for i := -d; i <= d; i++ {
			out = append(out, addS(b, i))
		}
	}
	for _, k := range []int{15, 16, 17, 18, 19, 20, 21, 22, 23, 30, 38, 39} {
		for i := -d; i <= d; i++ {
			out = append(out, addS(pow10s(k), i))
		}
	}
	return out
}

func exploreC13(w *Worker) {
	th := w.Thorough()
	d := int64(3)
	small := 130
	if th {
		d, small = 24, 3000
	}
	coefs := ints(0, small)
	edges := wordEdges(d)
	// edges times a power of ten: truncation back to the edge
	for _, e := range wordEdges(1) {
		b, _ := new(big.Int).SetString(e, 10)
		for _, k := range []int{1, 2, 5, 19, 20} {
			s := new(big.Int).Mul(b, ref.Pow10(k)).String()
			edges = append(edges, s, addS(s, -1), addS(s, 1))
		}
	}
	all := dedup(append(coefs, edges...))
	lo, hi := -42, 24
	if th {
		lo, hi = -80, 45
	}
	exps := append(rng(lo, hi), -400, -326, -325, -324, -323, -310, -309, -308, 290, 299, 300, 307, 308, 309, 310)
	for _, co := range all {
		if !w.Block() {
			continue
		}
		ops := opds([]string{co}, exps, true, false)
		for _, o := range ops {
			w.State()
			for _, a := range []string{"", "go"} {
				w.Do(&Case{Op: "ints", X: o, Alias: a})
				w.Do(&Case{Op: "float64", X: o, Alias: a})
			}
			precs := []int{0, 1, 24, 53, 64}
			if th {
				precs = []int{0, 1, 2, 3, 11, 24, 53, 63, 64, 65, 113, 237}
			}
			if !th && (o.N.E < -30 || o.N.E > 20) {
				continue
			}
			for _, p := range precs {
				for m := range floatModes {
					if p == 0 && m > 0 {
						break
					}
					w.Do(&Case{Op: "float", X: o, N: p, M: m, Dirty: (p + m) % 3})
				}
			}
		}
	}
	// long numbers
	for _, o := range opds(longCoefs(th), []int{-1310, -1300, -999, -640, -309, -308, -100, -77, -58, -1, 0, 1, 200}, true, false) {
		if !w.Block() {
			continue
		}
		w.State()
		for _, a := range []string{"", "go"} {
			w.Do(&Case{Op: "ints", X: o, Alias: a})
			w.Do(&Case{Op: "float64", X: o, Alias: a})
		}
		for _, p := range []int{0, 53, 64, 300} {
			for m := range floatModes {
				if p == 0 && m > 0 {
					break
				}
				w.Do(&Case{Op: "float", X: o, N: p, M: m, Dirty: (p + m) % 3})
			}
		}
		for dd := 0; dd < 6; dd++ {
			w.Do(&Case{Op: "setint", S: ref.IntText(o.N), N: o.N.E, Dirty: dd})
		}
		for i, b := range []string{"1", "3", "7", "18446744073709551616", pow10s(77), "123456789012345678901234567890123456789012345678901234567890123456789012345678901"} {
			for _, cx := range []*Cx{mkCx(16, 0, 0, ref.HalfEven), mkCx(100, 0, 0, ref.Up), mkCx(617, 0, 0, ref.Floor)} {
				if o.N.E == 0 {
					w.Do(&Case{Op: "setrat", C: cx, S: ref.IntText(o.N), T: b, Dirty: i})
					w.Do(&Case{Op: "setrat", C: cx, S: b, T: ref.IntText(ref.Abs(o.N)), Dirty: i})
				}
			}
		}
	}
	// extreme exponents: no result may be computed digit by digit
	if w.Block() {
		ext := []int{-decimal.MaxScale, -1000000000, -4000000, 4000000, 1000000000, decimal.MaxScale}
		for _, o := range opds([]string{"0", "1", "9", "18446744073709551614", "18446744073709551615", "18446744073709551616", pow10s(40)}, ext, true, true) {
			w.State()
			for _, a := range []string{"", "go"} {
				w.Do(&Case{Op: "ints", X: o, Alias: a})
				w.Do(&Case{Op: "float64", X: o, Alias: a})
			}
		}
		for _, o := range specialOpds() {
			for m := range floatModes {
				w.Do(&Case{Op: "float", X: o, N: 53, M: m})
			}
			w.Do(&Case{Op: "float", X: o})
		}
	}
	// every binary64 exponent with mantissa patterns
	var mants []uint64
	for k := uint(0); k < 52; k++ {
		mants = append(mants, 1<<k, 1<<k-1, (1<<52-1)^(1<<k-1), (1<<52-1)^(1<<k))
		if th {
			for j := uint(0); j < k; j++ {
				mants = append(mants, 1<<k|1<<j)
			}
		}
	}
	for e := uint64(0); e < 2048; e++ {
		if !w.Block() {
			continue
		}
		w.State()
		step := 1
		if !th && (e < 900 || e > 1200) {
			step = 13 // the full set of patterns only around one; see the bounds
		}
		if e == 0 || e == 2047 { // zeros, subnormal numbers, infinities, NaNs
			step = 1
			for s := uint64(0); s < 2; s++ {
				for dd := 0; dd < 6; dd++ {
					w.Do(&Case{Op: "setfloat64", S: strconv.FormatUint(s<<63|e<<52, 16), Dirty: dd})
				}
			}
		}
		for i := int(e) % step; i < len(mants); i += step {
			for s := uint64(0); s < 2; s++ {
				w.Do(&Case{Op: "setfloat64", S: strconv.FormatUint(s<<63|e<<52|mants[i], 16), Dirty: i % 6})
			}
		}
	}
	// big.Float
	ms := []string{"0", "1", "3", "5", "ff", "7fffffffffffffff", "8000000000000000", "8000000000000001", "fffffffffffffffe", "ffffffffffffffff", "10000000000000001", "ffffffffffffffffffffffffffffffff", "123456789abcdef0123456789abcdef"}
	rg := 70
	if th {
		rg = 400
	}
	es := append(rng(-rg, rg), -3000, -2001, -1500, -1100, -1075, -1000, -700, -500, -300, -200, -100, 100, 200, 500, 1023, 1100, 2000, 5000)
	for _, e := range es {
		if !w.Block() {
			continue
		}
		w.State()
		for _, m := range ms {
			for _, p := range []int{1, 24, 53, 64, 65, 128, 200} {
				for _, sg := range []string{"", "-"} {
					for dd := 0; dd < 6; dd++ {
						if e < -rg && dd > 1 && !th {
							continue
						}
						w.Do(&Case{Op: "setfloat", S: m, N: e, M: p, T: sg, Dirty: dd})
					}
				}
			}
		}
		for dd := 0; dd < 6; dd++ {
			w.Do(&Case{Op: "setfloat", S: "inf", T: "-", Dirty: dd})
			w.Do(&Case{Op: "setfloat", S: "inf", Dirty: dd})
		}
	}
	// rationals
	n := 40
	if th {
		n = 160
	}
	nums := ints(0, n)
	for _, s := range []string{"18446744073709551615", "18446744073709551616", "9999999999999999999", "100000000000000000000", "123456789012345678901234567890"} {
		nums = append(nums, s)
	}
	var rcx []*Cx
	for _, p := range []int{1, 2, 5, 0, 20} {
		for _, r := range allRounds {
			rcx = append(rcx, mkCx(p, 0, 0, r))
		}
	}
	rcx = append(rcx, mkCx(3, 2, -2, ref.HalfEven), mkCx(3, 2, -2, ref.Up))
	for _, cx := range rcx {
		for _, a := range nums {
			if !w.Block() {
				continue
			}
			w.State()
			for i, b := range nums {
				if b == "0" {
					continue
				}
				for _, m := range []string{"", "method"} {
					w.Do(&Case{Op: "setrat", C: cx, S: a, T: b, Dirty: i % 6, Alias: m})
					if a != "0" {
						w.Do(&Case{Op: "setrat", C: cx, S: "-" + a, T: b, Dirty: i % 6, Alias: m})
					}
				}
			}
		}
	}
	// integers
	for _, s := range all {
		if !w.Block() {
			continue
		}
		w.State()
		for _, sc := range []int{-decimal.MaxScale, -20, -1, 0, 1, 7, 20, decimal.MaxScale} {
			for dd := 0; dd < 6; dd++ {
				w.Do(&Case{Op: "setint", S: s, N: sc, Dirty: dd})
				if s != "0" {
					w.Do(&Case{Op: "setint", S: "-" + s, N: sc, Dirty: dd})
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:        "C13",
		Technique: "explicit-state enumeration",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "to Int64/Uint64/Int/Rat/Float64/Float: coefficients 0..3000 and every word and power-of-ten edge +-24 (also times 10^k), exponents -80..45 and the binary64 limits, 12 precisions x 6 rounding modes; from float64: 2048 exponents x all patterns of one, two or a run of set bits x signs; from big.Float: 13 mantissas x exponents -400..400 and 18 from -3000 to 5000 x 7 precisions x 6 receivers; from big.Rat: 165^2 ratios x 37 contexts; integers x 8 scales x 6 receivers"
			}
			return "to Int64/Uint64/Int/Rat/Float64/Float: coefficients 0..130 and every word and power-of-ten edge +-3 (also times 10^k), exponents -42..24 and the binary64 limits, 5 precisions x 6 rounding modes; from float64: 303 exponents (zeros, infinities and NaNs too) x 208 mantissa patterns and every other exponent x 16 of them; from big.Float: 13 mantissas x exponents -70..70 and 18 from -3000 to 5000 x 7 precisions x 6 receivers; from big.Rat: 45^2 ratios x 37 contexts; integers x 8 scales x 6 receivers"
		},
		Explore: exploreC13,
		Check:   checkC13,
		Assumptions: []string{
			"The conversion of NaN to big.Float, and of special values to big.Int and big.Rat, is documented as undefined and only has to return.",
			"The boolean of the float64 conversion is only specified for exact results (true), overflow and underflow to zero (false).",
		},
	})
}
