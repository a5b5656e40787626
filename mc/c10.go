package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/misc"

	"verif/mc/ref"
)

// mkOver builds the operand's datum on top of an object that held something
// else before.
func mkOver(o *Opd, d int) *decimal.Big {
	z := dirtyZ(d)
	switch o.N.K {
	case ref.Fin:
		z.SetBigMantScale(o.N.C, -o.N.E)
	case ref.Inf:
		z.SetInf(o.N.Neg)
	default:
		z.SetNaN(o.N.K == ref.SNaN)
		if o.Payload != 0 {
			c, _ := decimal.Raw(z)
			*c = o.Payload
		}
	}
	return z.SetSignbit(o.N.Neg)
}

// totalRank follows the documented order of all representations.
func totalCmp(x, y ref.Num, abs bool) int {
	if abs {
		x.Neg, y.Neg = false, false
	}
	rank := func(n ref.Num) int {
		r := 0
		switch n.K {
		case ref.QNaN:
			r = 3
		case ref.SNaN:
			r = 2
		case ref.Inf:
			r = 1
		}
		if n.Neg {
			r = -r
		}
		return r
	}
	sgn := func(a, b int) int {
		switch {
		case a < b:
			return -1
		case a > b:
			return 1
		}
		return 0
	}
	if c := sgn(rank(x), rank(y)); c != 0 {
		return c
	}
	if rank(x) != 0 {
		return 0
	}
	if c := ref.Cmp(x, y); c != 0 {
		return c
	}
	if x.Neg != y.Neg {
		if x.Neg {
			return -1
		}
		return 1
	}
	return sgn(x.E, y.E)
}

func checkC10(c *Case) string {
	switch c.Op {
	case "cmp":
		return checkCmp(c)
	case "class":
		return checkClass(c)
	case "many":
		return checkMany(c)
	}
	return "unknown op"
}

func checkCmp(c *Case) string {
	xn, yn := c.X.N, c.Y.N
	x, y := c.X.B, c.Y.B
	if c.Dirty != 0 {
		x, y = mkOver(c.X, c.Dirty), mkOver(c.Y, 5-c.Dirty)
	}
	if c.Alias == "xy" {
		y = x
	}
	if !xn.IsNaN() && !yn.IsNaN() {
		want := ref.Cmp(xn, yn)
		if got := x.Cmp(y); got != want {
			return fmt.Sprintf("Cmp: got %d want %d", got, want)
		}
		if got := y.Cmp(x); got != -want {
			return fmt.Sprintf("Cmp reversed: got %d want %d", got, -want)
		}
		wabs := ref.Cmp(ref.Abs(xn), ref.Abs(yn))
		if got := x.CmpAbs(y); got != wabs {
			return fmt.Sprintf("CmpAbs: got %d want %d", got, wabs)
		}
		for _, m := range []struct {
			name string
			f    func() *decimal.Big
			cmp  int // want: result compares >= (1) or <= (-1) with both
			abs  bool
		}{
			{"Max", func() *decimal.Big { return decimal.Max(x, y) }, 1, false},
			{"Min", func() *decimal.Big { return decimal.Min(x, y) }, -1, false},
			{"MaxAbs", func() *decimal.Big { return decimal.MaxAbs(x, y) }, 1, true},
			{"MinAbs", func() *decimal.Big { return decimal.MinAbs(x, y) }, -1, true},
			{"misc.Max", func() *decimal.Big { return misc.Max(x, y) }, 1, false},
			{"misc.Min", func() *decimal.Big { return misc.Min(x, y) }, -1, false},
			{"misc.MaxAbs", func() *decimal.Big { return misc.MaxAbs(x, y) }, 1, true},
			{"misc.MinAbs", func() *decimal.Big { return misc.MinAbs(x, y) }, -1, true},
		} {
			r := m.f()
			w := want
			if m.abs {
				w = wabs
			}
			if r != x && r != y {
				return m.name + ": the result is neither argument"
			}
			if w*m.cmp > 0 && r != x || w*m.cmp < 0 && r != y {
				return m.name + ": wrong argument chosen"
			}
		}
	}
	for i := 0; i < 2; i++ {
		want := totalCmp(xn, yn, i == 1)
		var got, rev, mis int
		if i == 0 {
			got, rev, mis = x.CmpTotal(y), y.CmpTotal(x), misc.CmpTotal(x, y)
		} else {
			got, rev, mis = x.CmpTotalAbs(y), y.CmpTotalAbs(x), misc.CmpTotalAbs(x, y)
		}
		if got != want || rev != -want || mis != want {
			return fmt.Sprintf("CmpTotal%s: got %d, reversed %d, misc %d, want %d", []string{"", "Abs"}[i], got, rev, mis, want)
		}
	}
	sq := xn.K == ref.Fin && yn.K == ref.Fin && xn.E == yn.E || xn.IsNaN() && yn.IsNaN() || xn.K == ref.Inf && yn.K == ref.Inf
	if got := x.SameQuantum(y); got != sq || misc.SameQuantum(y, x) != sq {
		return fmt.Sprintf("SameQuantum: got %v", got)
	}
	if !sameBig(x, c.X) || !sameBig(y, c.Y) || x.Context.Conditions|y.Context.Conditions != 0 {
		c.X.B, c.Y.B = mkBig(xn, c.X.Payload), mkBig(yn, c.Y.Payload)
		return "an operand changed"
	}
	return ""
}

func checkClass(c *Case) string {
	n := c.X.N
	x := mkOver(c.X, c.Dirty)
	x.Context = c.C.D
	s := "+"
	if n.Neg {
		s = "-"
	}
	normal, sub := false, false
	want := ""
	switch n.K {
	case ref.QNaN:
		want = "NaN"
	case ref.SNaN:
		want = "sNaN"
	case ref.Inf:
		want = s + "Infinity"
	default:
		switch {
		case n.IsZero():
			want = s + "Zero"
		case n.Adj() < c.C.M.Emin:
			want, sub = s+"Subnormal", true
		default:
			want, normal = s+"Normal", true
		}
	}
	if got := x.Class(); got != want {
		return fmt.Sprintf("Class: got %s want %s", got, want)
	}
	if x.IsNormal() != normal || x.IsSubnormal() != sub {
		return fmt.Sprintf("IsNormal %v IsSubnormal %v for %s", x.IsNormal(), x.IsSubnormal(), want)
	}
	if x.IsFinite() != (n.K == ref.Fin) || x.Signbit() != n.Neg {
		return "IsFinite or Signbit"
	}
	for _, q := range []int{-1, 0, 1} {
		if x.IsNaN(q) != (n.K == ref.QNaN && q >= 0 || n.K == ref.SNaN && q <= 0) {
			return fmt.Sprintf("IsNaN(%d)", q)
		}
		if x.IsInf(q) != (n.K == ref.Inf && (q == 0 || n.Neg == (q < 0))) {
			return fmt.Sprintf("IsInf(%d)", q)
		}
	}
	if !n.IsNaN() {
		sg := 1
		if n.IsZero() {
			sg = 0
		} else if n.Neg {
			sg = -1
		}
		if x.Sign() != sg {
			return fmt.Sprintf("Sign: %d", x.Sign())
		}
	}
	if n.K == ref.Fin {
		if x.Scale() != -n.E || x.Precision() != ref.Digits(n.C) && !n.IsZero() || n.IsZero() && x.Precision() != 1 {
			return fmt.Sprintf("Scale %d Precision %d", x.Scale(), x.Precision())
		}
		m, ok := x.Mantissa()
		if fits := n.C.IsUint64() && n.C.Uint64() != inflated; ok != fits || ok && m != n.C.Uint64() {
			// the single coefficient 2^64-1 needs the wide form
			return fmt.Sprintf("Mantissa: %d, %v", m, ok)
		}
	} else if _, ok := x.Mantissa(); ok {
		return "Mantissa: reported for a special value"
	}
	m1, ok1 := x.Mantissa()
	if m2, ok2 := misc.Mantissa(x); m1 != m2 || ok1 != ok2 {
		return fmt.Sprintf("misc.Mantissa: %d, %v and %d, %v", m1, ok1, m2, ok2)
	}
	if !sameBig(x, c.X) || x.Context != c.C.D {
		return "operand changed"
	}
	return ""
}

// checkMany: the variadic choices over a whole list (c.S: operands).
func checkMany(c *Case) string {
	var xs []*decimal.Big
	var ns []ref.Num
	for _, s := range strings.Split(c.S, " ") {
		o, err := parseOpd(s)
		if err != nil {
			return err.Error()
		}
		xs = append(xs, o.B)
		ns = append(ns, o.N)
	}
	pick := func(sign int, abs bool) ref.Num {
		f := func(n ref.Num) ref.Num {
			if abs {
				return ref.Abs(n)
			}
			return n
		}
		m := ns[0]
		for _, n := range ns[1:] {
			if ref.Cmp(f(n), f(m))*sign > 0 {
				m = n
			}
		}
		return f(m)
	}
	for _, m := range []struct {
		name string
		f    func(...*decimal.Big) *decimal.Big
		sign int
		abs  bool
	}{{"Min", decimal.Min, -1, false}, {"MaxAbs", decimal.MaxAbs, 1, true}, {"MinAbs", decimal.MinAbs, -1, true}, {"misc.Max", misc.Max, 1, false}, {"misc.Min", misc.Min, -1, false}, {"misc.MaxAbs", misc.MaxAbs, 1, true}, {"misc.MinAbs", misc.MinAbs, -1, true}} {
		r := m.f(xs...)
		in := false
		for _, x := range xs {
			in = in || x == r
		}
		got := numOf(r)
		if m.abs {
			got.Neg = false
		}
		if !in || ref.Cmp(got, pick(m.sign, m.abs)) != 0 {
			return fmt.Sprintf("%s: %s", m.name, got)
		}
	}
	return ""
}

func exploreC10(w *Worker) {
	pairs := func(xs, ys []*Opd) {
		for _, x := range xs {
			if !w.Block() {
				continue
			}
			for _, y := range ys {
				w.State()
				w.Do(&Case{Op: "cmp", X: x, Y: y})
			}
			w.Do(&Case{Op: "cmp", X: x, Y: x, Alias: "xy"})
		}
	}
	// (a) small operands with every scale relation
	sm := opds(smallCoefs, rng(-4, 3), true, true)
	if w.Thorough() {
		sm = opds(append(ints(0, 320), smallCoefs[30:]...), rng(-5, 4), true, true)
	}
	pairs(sm, sm)
	// (b) boundary coefficients with exponents that make them equal or
	// nearly equal, across the word size
	bc := bigCoefs(true)
	gaps := []int{-40, -39, -38, -21, -20, -19, -18, -17, -16, -3, -1, 0, 1, 2, 16, 18, 19, 20, 21, 38, 57}
	pairs(opds(bc, []int{0}, true, true), opds(bc, gaps, true, true))
	// (c) a number against the same number with k zeros appended, +-1
	for i, c := range bc {
		_ = i
		if !w.Block() {
			continue
		}
		n, _ := new(big.Int).SetString(c, 10)
		for k := 0; k <= 60; k++ {
			m := new(big.Int).Mul(n, ref.Pow10(k))
			for d := int64(-1); d <= 1; d++ {
				v := new(big.Int).Add(m, big.NewInt(d))
				if v.Sign() < 0 {
					continue
				}
				for _, e := range []int{0, -30, 999999999999999999 - 60, -999999999999999999} {
					w.State()
					for s := 0; s < 4; s++ {
						w.Do(&Case{Op: "cmp", X: newOpd(ref.Num{K: ref.Fin, Neg: s&1 != 0, C: n, E: e + k}, 0), Y: newOpd(ref.Num{K: ref.Fin, Neg: s&2 != 0, C: v, E: e}, 0)})
					}
				}
			}
		}
	}
	// long numbers: against each other, and against themselves with k zeros
	// appended, +-1
	lc := longCoefs(w.Thorough())
	lg := opds(lc, []int{-1300, -300, 0, 77}, true, false)
	pairs(opds(lc, []int{0}, true, false), append(lg, opds(longMates, []int{-500, 0, 77, 300, 999, 1299}, true, true)...))
	for _, c := range lc {
		if !w.Block() {
			continue
		}
		n, _ := new(big.Int).SetString(c, 10)
		for _, k := range []int{1, 18, 19, 20, 60, 100, 300, 1000} {
			m := new(big.Int).Mul(n, ref.Pow10(k))
			for d := int64(-1); d <= 1; d++ {
				v := new(big.Int).Add(m, big.NewInt(d))
				w.State()
				for s := 0; s < 4; s++ {
					w.Do(&Case{Op: "cmp", X: newOpd(ref.Num{K: ref.Fin, Neg: s&1 != 0, C: n, E: k - 40}, 0), Y: newOpd(ref.Num{K: ref.Fin, Neg: s&2 != 0, C: v, E: -40}, 0)})
				}
			}
		}
	}
	// (d) extreme exponents, and objects that held other values before
	ex := opds([]string{"0", "1", "10", "99", "18446744073709551615", "18446744073709551616"}, []int{-1999999999999999998, -999999999999999999, -999999999999999998, -1, 0, 1, 999999999999999980, 999999999999999999}, true, true)
	pairs(ex, ex)
	for _, x := range ex {
		if !w.Block() {
			continue
		}
		for _, y := range ex {
			for d := 1; d < 5; d++ {
				w.Do(&Case{Op: "cmp", X: x, Y: y, Dirty: d})
			}
		}
	}
	// (e) classification
	cl := opds(append([]string{"0", "1", "9", "10", "99", "100", "999", "18446744073709551615", "18446744073709551616"}, "1000000000000000000000000000000"), append(rng(-42, 12), -400, -999999999999999999, 999999999999999999), true, true)
	for _, cx := range append(cxs([]int{1, 3, 16, decimal.UnlimitedPrecision}, 9, -7, []ref.Round{0, ref.Floor}), append(cxs([]int{0, 5}, 0, 0, []ref.Round{0}), cxs([]int{7}, 96, -20, []ref.Round{0})...)...) {
		for i, x := range cl {
			if i%64 == 0 {
				w.skip = !w.Block()
			}
			if w.skip {
				continue
			}
			w.State()
			for d := 0; d < 6; d++ {
				w.Do(&Case{Op: "class", X: x, C: cx, Dirty: d})
			}
		}
	}
	// digit counts: next to every power of ten and of two up to a length
	dc := mkCx(decimal.UnlimitedPrecision, 0, 0, ref.HalfEven)
	n10, n2 := 2600, 8600
	if w.Thorough() {
		n10, n2 = 12000, 40000
	}
	for k := 0; k <= n2; k++ {
		if k%100 == 0 {
			w.skip = !w.Block()
		}
		if w.skip {
			continue
		}
		w.State()
		for d := int64(-1); d <= 1; d++ {
			if v := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(k)), big.NewInt(d)); v.Sign() > 0 {
				w.Do(&Case{Op: "class", C: dc, X: newOpd(ref.Num{C: v, E: -k}, 0)})
			}
			if v := new(big.Int).Add(ref.Pow10(k%(n10+1)), big.NewInt(d)); v.Sign() > 0 && k <= n10 {
				w.Do(&Case{Op: "class", C: dc, X: newOpd(ref.Num{C: v, E: -k}, 0)})
				w.Do(&Case{Op: "cmp", X: newOpd(ref.Num{C: v, E: 0}, 0), Y: newOpd(ref.Num{C: big.NewInt(1), E: k}, 0)})
			}
		}
	}
	w.skip = false
	for k := 2600; k <= 60000; k += 1 + k/64 {
		if !w.Block() {
			continue
		}
		w.State()
		for d := int64(-1); d <= 1; d++ {
			w.Do(&Case{Op: "class", C: dc, X: newOpd(ref.Num{C: new(big.Int).Add(ref.Pow10(k), big.NewInt(d)), E: -k}, 0)})
		}
	}
	// (f) lists
	l := []string{"1E0", "-1E0", "0E0", "-0E3", "2E1", "20E0", "-20E0", "Infinity", "-Infinity", "5E-1"}
	for i := range l {
		for j := range l {
			if !w.Block() {
				continue
			}
			for k := range l {
				w.State()
				w.Do(&Case{Op: "many", S: strings.Join([]string{l[i], l[j], l[k]}, " ")})
				for m := range l {
					w.Do(&Case{Op: "many", S: strings.Join([]string{l[i], l[j], l[k], l[m]}, " ")})
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:      "C10",
		Check:   checkC10,
		Explore: exploreC10,
		Bounds: func(tier string) string {
			return "all ordered pairs of 69 (thorough ~360) small coefficients x 8 (10) exponents x signs and specials; all boundary coefficients x 21 exponent gaps x signs; every boundary coefficient against itself with 0..60 zeros appended -1/0/+1 at four base exponents; extreme exponents; operands rebuilt over five kinds of earlier contents; classification of ~1200 operands in 11 contexts; digit counts of 10^k, 10^k+-1 (k <= 2600, thorough 12000) and 2^k, 2^k+-1 (k <= 8600, thorough 40000); all lists of 3 and 4 of 10 values"
		},
	})
}
