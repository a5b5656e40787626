package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

type fnSpec struct {
	name  string
	arity int
	run   func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big
}

var fnList = []*fnSpec{
	{"Exp", 1, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Exp(z, x) }},
	{"Log", 1, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Log(z, x) }},
	{"Log10", 1, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Log10(z, x) }},
	{"Sin", 1, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Sin(z, x) }},
	{"Cos", 1, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Cos(z, x) }},
	{"Tan", 1, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Tan(z, x) }},
	{"Asin", 1, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Asin(z, x) }},
	{"Acos", 1, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Acos(z, x) }},
	{"Atan", 1, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Atan(z, x) }},
	{"Atan2", 2, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Atan2(z, x, y) }},
	{"Hypot", 2, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Hypot(z, x, y) }},
	{"Pow", 2, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Pow(z, x, y) }},
	{"Pi", 0, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.Pi(z) }},
	{"E", 0, func(c decimal.Context, z, x, y *decimal.Big) *decimal.Big { return c.E(z) }},
}

var fns = map[string]*fnSpec{}

func init() {
	for _, f := range fnList {
		fns[f.name] = f
	}
}

// realCache keeps the last reference evaluation, reused across contexts.
var realCache struct {
	key string
	r   ref.Real
	d   int
}

func fnRef(name string, x, y *Opd, digs int) ref.Real {
	k := name + "|" + x.String() + "|" + y.String()
	if realCache.key == k && realCache.d >= digs {
		return realCache.r
	}
	var xn, yn ref.Num
	if x != nil {
		xn = x.N
	}
	if y != nil {
		yn = y.N
	}
	realCache.key, realCache.d = k, digs
	realCache.r = ref.Fn(name, xn, yn, digs)
	return realCache.r
}

func nopd(o *Opd) ref.Num {
	if o == nil {
		return ref.Num{}
	}
	return o.N
}

// checkFn: the result is within one unit in the last place of the exact value,
// or out of the context's exponent range when the exact value is, and the
// conditions say so.
func checkFn(c *Case) string {
	f := fns[c.Op]
	z := c.C.newZ()
	r := runFn(c, f, z)
	if r != z {
		return "result: the returned pointer is not the receiver"
	}
	p := c.C.M.Prec
	got := numOf(z)
	cond := z.Context.Conditions
	digs := p + 5
	if p >= ref.Unlimited {
		digs = 40
	}
	var rr ref.Real
	if c.Op == "Sin" || c.Op == "Cos" || c.Op == "Tan" {
		if a := c.X.N.Adj(); a > 19 || a == 19 && got.IsNaN() {
			if !got.IsNaN() || cond&decimal.InvalidOperation == 0 && p < ref.Unlimited {
				return fmt.Sprintf("refusal: got %s (%s)", got, cond)
			}
			return ""
		}
	}
	if !got.IsNaN() || p < ref.Unlimited {
		rr = fnRef(c.Op, c.X, c.Y, digs)
	}
	if m := judgeFn(c, rr, got, cond, p); m != "" {
		return m
	}
	if s := canonical(z); s != "" {
		return s
	}
	for i, o := range []*Opd{c.X, c.Y} {
		if o != nil && !sameBig(o.B, o) {
			bad := numOf(o.B)
			o.B = mkBig(o.N, o.Payload)
			return fmt.Sprintf("operand %d changed: now %s", i, bad)
		}
	}
	return ""
}

// runFn calls the function.  In Go mode a NaN comes with a panic.
func runFn(c *Case, f *fnSpec, z *decimal.Big) (r *decimal.Big) {
	if c.C.D.OperatingMode == decimal.Go {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(decimal.ErrNaN); !ok || !z.IsNaN(0) {
					panic(e)
				}
				r = z
			}
		}()
	}
	return f.run(c.C.D, z, big1(c.X), big1(c.Y))
}

func judgeFn(c *Case, rr ref.Real, got ref.Num, cond decimal.Condition, p int) string {
	m := c.C.M
	fail := func(kind string) string {
		return fmt.Sprintf("%s: got %s (%s) want %s", kind, got, cond, rr)
	}
	if got.IsNaN() {
		switch {
		case p >= ref.Unlimited && cond&(decimal.InvalidContext|decimal.InvalidOperation) != 0:
			return "" // refused: no finite number of digits will do
		}
		return fail("value")
	}
	// the magnitude of the exact value
	const beyond = 1 << 62
	neg, adj := rr.Neg, beyond
	switch {
	case rr.Over < 0:
		adj = -beyond
	case rr.Over == 0 && rr.M.Sign() == 0:
		if !got.IsZero() || cond&^decimal.Clamped != 0 {
			return fail("zero")
		}
		return ""
	case rr.Over == 0:
		neg = rr.M.Sign() < 0
		adj = -rr.W + ref.Digits(new(big.Int).Abs(rr.M)) - 1
	}
	if c.Op == "Pow" && !rr.Exact && rr.Over == 0 {
		// a power that may be exactly the power of ten where overflow begins
		lim := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(adj+rr.W)), nil)
		lim.Sub(new(big.Int).Abs(rr.M), lim)
		if adj == m.Emax+1 && lim.CmpAbs(big.NewInt(rr.Err)) <= 0 && got.K == ref.Fin && got.Adj() == m.Emax {
			return ""
		}
	}
	nearest := false
	switch c.C.R {
	case ref.HalfEven, ref.HalfUp, ref.HalfDown:
		nearest = true
	}
	if got.Neg != neg {
		return fail("sign")
	}
	const inexact = decimal.Inexact | decimal.Rounded
	if adj > m.Emax {
		if got.K != ref.Inf && (nearest || got.Adj() != m.Emax) {
			return fail("overflow")
		}
		if cond != inexact|decimal.Overflow {
			return fail("flags")
		}
		return ""
	}
	if got.K == ref.Inf {
		// only by rounding up from the largest number
		if adj != m.Emax || strings.Trim(new(big.Int).Abs(rr.M).String()[:p], "9") != "" {
			return fail("infinity")
		}
		return ""
	}
	if p >= ref.Unlimited {
		if rr.Over < 0 && got.IsZero() && cond&decimal.Underflow != 0 {
			return ""
		}
		d := got
		d.E += rr.W
		if !rr.Exact || abs(d.E) > 100000 || ref.Ulps(d, ref.Real{M: rr.M, Exact: true}, 1, nil).Sign() != 0 || cond != 0 {
			return fail("unlimited")
		}
		return ""
	}
	if d := ref.Digits(got.C); d > p {
		return fmt.Sprintf("precision: %d digits", d)
	}
	etiny := m.Etiny()
	if got.E < etiny {
		return fail("exponent")
	}
	want := inexact
	allowed := want
	if adj < m.Emin {
		want |= decimal.Subnormal | decimal.Underflow
		allowed = want
		if got.IsZero() {
			allowed |= decimal.Clamped
		}
	} else if got.IsZero() {
		return fail("value")
	} else if adj == m.Emin && rr.Err == 1 {
		allowed |= decimal.Subnormal | decimal.Underflow // the exact value may be just below
	}
	if adj == m.Emin-1 && got.Adj() >= m.Emin {
		want = inexact // rounded up to a normal number
	}
	same := false
	if adj < etiny-2 {
		// rounds to zero or to the least subnormal
		if !got.IsZero() && (nearest || got.E != etiny || got.C.Cmp(big.NewInt(1)) != 0) {
			return fail("underflow")
		}
	} else {
		d, q := got, rr
		d.E += rr.W
		q.W = 0
		if got.IsZero() {
			d.E = 0
		}
		if abs(d.E) > 100000 {
			return fail("magnitude")
		}
		var unit *int
		if adj-p+1 < etiny {
			u := etiny + rr.W
			unit = &u
		}
		u := ref.Ulps(d, q, p, unit)
		limit := big.NewRat(1, 1)
		if !nearest {
			limit = big.NewRat(11, 10) // directed: one ulp and the working error
		}
		if u.Cmp(limit) > 0 {
			return fail("ulp") + fmt.Sprintf(": off by %s ulp", u.FloatString(3))
		}
		same = u.Sign() == 0 && (rr.Exact || c.Op == "Pow" && !atOne(rr))
	}
	if same {
		want, allowed = 0, decimal.Rounded|decimal.Clamped
		if adj < m.Emin {
			allowed |= decimal.Subnormal
		}
		if !rr.Exact {
			// a power that may or may not be exactly representable
			allowed |= inexact
			if adj < m.Emin {
				allowed |= decimal.Underflow
			}
		}
	}
	if cond&want != want || cond&^allowed != 0 {
		return fail("flags")
	}
	return ""
}

// atOne: the reference is the limit one of a power with a tiny exponent.
func atOne(r ref.Real) bool {
	m := new(big.Int).Abs(r.M)
	return r.Err == 1 && strings.Trim(m.String()[1:], "0") == "" && m.String()[0] == '1' && r.W == len(m.String())-1
}

func txt(ss ...string) []*Opd {
	var out []*Opd
	for _, s := range ss {
		n, _, ok := ref.ParseText(s)
		if !ok {
			panic(s)
		}
		out = append(out, newOpd(n, 0))
	}
	return out
}

func exploreFn(w *Worker) {
	precs := []int{0, 1, 2, 3, 5, 9, 16, 19, 34, 50}
	rs := []ref.Round{ref.HalfEven, ref.Down, ref.Ceiling}
	cx := cxs(precs, 0, 0, rs)
	xs := opds([]string{"1", "2", "3", "5", "7", "9", "10", "11", "15", "25", "31", "47", "50", "57", "71", "78", "99", "100", "101", "157", "271", "314", "471", "577", "578", "628", "785", "999", "1001", "99999", "100001", "314159265", "1570796327", "12345678901234567", "18446744073709551616", "31415926535897932384626433832795"}, rng(-20, 3), true, false)
	for _, f := range fnList {
		if f.arity != 1 {
			continue
		}
		for i, x := range xs {
			if i%4 == 0 {
				w.skip = !w.Block()
			}
			if w.skip {
				continue
			}
			a := x.N.Adj()
			switch f.name {
			case "Exp":
				if a > 5 {
					continue
				}
			case "Log", "Log10":
				if x.N.Neg {
					continue
				}
			case "Asin", "Acos":
				if ref.Cmp(ref.Abs(x.N), ref.FinInt(false, 1, 0)) > 0 {
					continue
				}
			case "Sin", "Cos", "Tan":
				if a > 6 && x.N.E != 3 {
					continue
				}
			}
			w.State()
			for j := len(cx) - 1; j >= 0; j-- {
				w.Do(&Case{Op: f.name, C: cx[j], X: x})
			}
		}
	}
	for _, c := range cxs(rng(1, 320), 0, 0, rs) {
		if w.Block() {
			w.Do(&Case{Op: "Pi", C: c})
			w.Do(&Case{Op: "E", C: c})
		}
	}
	exploreFnWide(w, rs)
	exploreFnRange(w, rs)
	bx := opds([]string{"1", "2", "3", "5", "7", "9", "10", "15", "99", "101", "314159", "18446744073709551616"}, []int{-20, -6, -3, -1, 0, 1, 3}, true, false)
	by := opds([]string{"1", "2", "3", "4", "5", "7", "10", "15", "25", "99", "101", "314159"}, []int{-6, -3, -1, 0, 1}, true, false)
	for _, f := range fnList {
		if f.arity != 2 {
			continue
		}
		for _, x := range bx {
			if !w.Block() {
				continue
			}
			for _, y := range by {
				if f.name == "Pow" {
					if x.N.Neg {
						if _, ok := isIntN(y.N); !ok {
							continue
						}
					}
					if y.N.Adj() > 2 {
						continue
					}
				}
				w.State()
				for j := len(cx) - 1; j >= 0; j-- {
					w.Do(&Case{Op: f.name, C: cx[j], X: x, Y: y})
				}
			}
		}
	}
}

// exploreFnWide covers what the common grid leaves out: every leading digit
// triple (the range reductions and their tables branch on it), the numbers
// next to powers of ten and word boundaries, and high precision.
func exploreFnWide(w *Worker, rs []ref.Round) {
	ex, ps := []int{-5, -2, -1, 4}, []int{5, 16, 34}
	if w.Thorough() {
		ex, ps = rng(-9, 9), []int{2, 5, 9, 16, 19, 34, 60, 100}
	}
	cx := cxs(ps, 0, 0, []ref.Round{ref.HalfEven})
	for m := int64(100); m < 1000; m++ {
		if !w.Block() {
			continue
		}
		for _, e := range ex {
			x := newOpd(ref.FinInt(false, m, e), 0)
			for _, f := range []string{"Log", "Log10", "Exp", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan"} {
				a := x.N.Adj()
				switch f {
				case "Exp", "Sin", "Cos", "Tan":
					if a > 3 {
						continue
					}
				case "Asin", "Acos":
					if a >= 0 {
						continue
					}
				}
				w.State()
				for j := len(cx) - 1; j >= 0; j-- {
					w.Do(&Case{Op: f, C: cx[j], X: x})
				}
			}
		}
	}
	// powers of ten, and the sums of one with a word boundary
	cx = cxs([]int{1, 5, 16, 19, 20, 34}, 0, 0, rs)
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	for k := int64(0); k <= 45; k++ {
		if !w.Block() {
			continue
		}
		ten := new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil)
		var ms []*big.Int
		for d := int64(-2); d <= 2; d++ {
			ms = append(ms, new(big.Int).Add(ten, big.NewInt(d)), new(big.Int).Add(new(big.Int).Add(ten, two64), big.NewInt(d)))
		}
		for _, m := range ms {
			if m.Sign() <= 0 {
				continue
			}
			for _, e := range []int{-30, -1, 0, 1, 17} {
				for _, neg := range []bool{false, true} {
					x := newOpd(ref.Num{Neg: neg, C: m, E: e}, 0)
					for _, f := range []string{"Log", "Log10", "Atan", "Exp"} {
						if neg && f[0] == 'L' || f == "Exp" && x.N.Adj() > 4 {
							continue
						}
						w.State()
						for j := len(cx) - 1; j >= 0; j-- {
							w.Do(&Case{Op: f, C: cx[j], X: x})
						}
					}
				}
			}
		}
	}
	// high precision
	hp := []int{100, 199, 200, 299, 300, 301, 400}
	pe := []int{400, 512, 700, 1000, 1024, 1500}
	if w.Thorough() {
		hp = []int{100, 150, 199, 200, 201, 250, 299, 300, 301, 400, 500, 700, 749, 750, 751, 800, 1000}
		pe = rng(321, 700)
		for p := 710; p <= 4000; p += 47 {
			pe = append(pe, p)
		}
	}
	for _, c := range cxs(pe, 0, 0, []ref.Round{ref.HalfEven}) {
		if w.Block() {
			w.Do(&Case{Op: "Pi", C: c})
			w.Do(&Case{Op: "E", C: c})
		}
	}
	xs := opds([]string{"1", "2", "9", "10", "11", "101", "314159265"}, []int{-20, -9, -3, -1, 0, 1}, true, false)
	cx = cxs(hp, 0, 0, []ref.Round{ref.HalfEven})
	for _, x := range xs {
		for _, f := range fnList {
			a := x.N.Adj()
			switch f.name {
			case "Log", "Log10":
				if x.N.Neg {
					continue
				}
			case "Exp", "Sin", "Cos", "Tan":
				if a > 3 {
					continue
				}
			case "Asin", "Acos":
				if ref.Cmp(ref.Abs(x.N), ref.FinInt(false, 1, 0)) > 0 {
					continue
				}
			}
			if f.arity != 1 || !w.Block() {
				continue
			}
			w.State()
			for j := len(cx) - 1; j >= 0; j-- {
				w.Do(&Case{Op: f.name, C: cx[j], X: x})
			}
		}
	}
	hl := []int{749, 750, 1000}
	if w.Thorough() {
		hl = append(hl, 1500, 2000)
	}
	cx = cxs(hl, 0, 0, []ref.Round{ref.HalfEven})
	for _, x := range opds([]string{"2", "9", "10", "101"}, []int{-9, -1, 0, 1}, false, false) {
		for _, f := range []string{"Log", "Log10", "Exp"} {
			if !w.Block() || f == "Exp" && x.N.Adj() > 1 {
				continue
			}
			w.State()
			for j := len(cx) - 1; j >= 0; j-- {
				w.Do(&Case{Op: f, C: cx[j], X: x})
			}
		}
	}
	// next to one and to the multiples of pi/2, where leading digits cancel
	ks, np := []int{1, 2, 3, 10, 50, 150, 300, 400, 700}, []int{16, 100, 301, 745, 760}
	if w.Thorough() {
		ks, np = append(rng(1, 60), 75, 100, 150, 200, 298, 299, 300, 301, 302, 350, 400, 500, 600, 700, 747, 748, 749, 750, 751, 752, 800, 1100), []int{5, 16, 100, 299, 300, 301, 500, 745, 749, 750, 751, 760, 1000}
	}
	cx = cxs(np, 0, 0, []ref.Round{ref.HalfEven})
	for _, k := range ks {
		one := ref.Pow10(k)
		for _, d := range []int64{-30, -3, -1, 1, 3} {
			x := newOpd(ref.Num{C: new(big.Int).Add(one, big.NewInt(d)), E: -k}, 0)
			if x.N.C.Sign() <= 0 {
				continue
			}
			for _, f := range []string{"Log", "Log10", "Asin", "Acos", "Atan"} {
				if !w.Block() || d > 0 && (f == "Asin" || f == "Acos") {
					continue
				}
				w.State()
				for j := len(cx) - 1; j >= 0; j-- {
					if f[0] == 'A' && cx[j].M.Prec > 301 && !w.Thorough() {
						continue
					}
					w.Do(&Case{Op: f, C: cx[j], X: x})
				}
			}
		}
		if k > 400 && !w.Thorough() {
			continue
		}
		for _, m := range []int64{1, 2, 3, 8, 1000001} {
			// the multiple to k digits after the radix
			c := ref.PiFix(k + 20)
			c = new(big.Int).Mul(c, big.NewInt(m))
			c.Quo(c, new(big.Int).Mul(big.NewInt(2), ref.Pow10(20)))
			x := newOpd(ref.Num{Neg: m == 3, C: c, E: -k}, 0)
			for _, f := range []string{"Sin", "Cos", "Tan"} {
				if !w.Block() {
					continue
				}
				w.State()
				for j := len(cx) - 1; j >= 0; j-- {
					if cx[j].M.Prec > 301 && !w.Thorough() {
						continue
					}
					w.Do(&Case{Op: f, C: cx[j], X: x})
				}
			}
		}
	}
}

// exploreFnRange: contexts with bounded exponents, operands whose exponents
// reach the library's limits, unlimited precision.
func exploreFnRange(w *Worker, rs []ref.Round) {
	var cx []*Cx
	for _, c := range []struct{ p, emax, emin int }{{7, 96, -95}, {16, 384, -383}, {34, 6144, -6143}, {5, 6, -6}, {3, 2, -2}, {9, 20, -20}, {16, 0, 0}, {5, 0, 0}} {
		cx = append(cx, cxs([]int{c.p}, c.emax, c.emin, rs)...)
	}
	cx = append(cx, mkCx(decimal.UnlimitedPrecision, 0, 0, ref.HalfEven), mkCx(16, 0, 0, ref.HalfEven).goMode())
	lim := []int{999999999999999999, 999999999999999998, 600000000000000000, 499999999999999999, 100000000000, 40000, 7000, 6144, 6143, 6110, 1000, 400, 384, 383, 367, 200, 102, 101, 100, 97, 96, 95, 90, 50, 30, 20, 19, 12, 10, 7, 6, 5, 4, 3, 2, 1}
	exps := []int{0}
	for _, e := range lim {
		exps = append(exps, e, -e)
	}
	xs := opds([]string{"1", "9", "3", "12", "99999", "123456789012345678901234567890"}, exps, true, false)
	// next to one, and where exp leaves the ranges
	for k := 1; k <= 120; k += 7 {
		t := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil)
		for _, d := range []int64{-1, 1} {
			xs = append(xs, newOpd(ref.Num{K: ref.Fin, C: new(big.Int).Add(t, big.NewInt(d)), E: -k}, 0))
		}
	}
	xs = append(xs, txt("1400E1", "14150", "-14150", "14225", "-14223", "223.35", "-223.3", "-234.8", "-235.6", "886.4", "-883.2", "-916.3", "-918", "2302585092994045680", "2302585092994045684", "-2302585092994045680", "-2302585092994045690", "1E18", "-1E18", "9.99E18", "1E19", "4.6", "6.9", "-4.6", "-13.8", "-24", "-25.3", "16.118", "16.119")...)
	for _, x := range xs {
		for _, f := range fnList {
			switch f.name {
			case "Log", "Log10":
				if x.N.Neg {
					continue
				}
			case "Asin", "Acos":
				if ref.Cmp(ref.Abs(x.N), ref.FinInt(false, 1, 0)) > 0 {
					continue
				}
			case "Sin", "Cos", "Tan":
				// an argument that can be reduced, or is refused
			}
			if f.arity != 1 || !w.Block() {
				continue
			}
			w.State()
			for _, c := range cx {
				w.Do(&Case{Op: f.name, C: c, X: x})
			}
		}
	}
	var us []*Opd
	for _, c := range []string{"1", "3", "12", "99999"} {
		us = append(us, opds([]string{c}, []int{0, 1, -1, -4, 10, -10, 94, -94, 380, -380, 6140, -6140, 400000000000000000, -400000000000000000, 499999999999999999, 600000000000000000, -600000000000000000, 999999999999999995, -999999999999999999}, true, false)...)
	}
	ys := append(opds([]string{"1", "2", "3", "7"}, []int{-2, -1, 0, 1, 2}, true, false), opds([]string{"1", "25"}, []int{-40, -6, 5, 17, 30}, true, false)...)
	for _, x := range us {
		for _, f := range fnList {
			if f.arity != 2 {
				continue
			}
			yy := us
			if f.name == "Pow" {
				yy = ys
			}
			if !w.Block() {
				continue
			}
			for _, y := range yy {
				if f.name == "Pow" && x.N.Neg {
					if _, ok := isIntN(y.N); !ok {
						continue
					}
				}
				w.State()
				for _, c := range cx {
					w.Do(&Case{Op: f.name, C: c, X: x, Y: y})
				}
			}
		}
	}
	// numbers next to one to powers so large that the result is anything
	// between the limits
	pk, pd := []int{1, 2, 3, 5, 9, 15, 16, 18, 19, 20, 21, 25, 40, 80}, []int{-6, -1, 0, 1, 2, 3, 9, 16, 17, 18, 19, 20}
	pc := []*Cx{mkCx(5, 0, 0, ref.HalfEven), mkCx(16, 0, 0, ref.Down), mkCx(16, 384, -383, ref.HalfEven), mkCx(34, 0, 0, ref.HalfEven)}
	if w.Thorough() {
		pk, pd = append(rng(1, 60), 80, 100, 150, 300), rng(-25, 22)
		pc = append(pc, cxs([]int{1, 2, 9, 19, 60}, 0, 0, rs)...)
	}
	for _, k := range pk {
		for _, d := range []int64{-3, -1, 1, 7} {
			x := newOpd(ref.Num{C: new(big.Int).Add(ref.Pow10(k), big.NewInt(d)), E: -k}, 0)
			for _, j := range pd {
				if !w.Block() {
					continue
				}
				for _, m := range []int64{1, 3, 25, 123456789} {
					for _, neg := range []bool{false, true} {
						y := newOpd(ref.Num{Neg: neg, C: big.NewInt(m), E: k + j - ref.Digits(big.NewInt(m)) + 1}, 0)
						w.State()
						for _, c := range pc {
							w.Do(&Case{Op: "Pow", C: c, X: x, Y: y})
						}
					}
				}
			}
		}
	}
	for _, c := range cx {
		if w.Block() {
			w.Do(&Case{Op: "Pi", C: c})
			w.Do(&Case{Op: "E", C: c})
		}
	}
}

func isIntN(n ref.Num) (ref.Num, bool) {
	s := ref.Strip(n, 1<<60)
	return s, s.E >= 0
}

func init() {
	register(&Prop{ID: "C15", Check: checkFn, Explore: exploreFn, Bounds: func(string) string {
		return "every function x precisions {0(=16),1,2,3,5,9,16,19,34,50} x {half-even, down, ceiling} over 36 coefficients x exponents -20..3 x both signs (one argument) and 12x7x2 by 12x5x2 (two arguments), restricted to the domain; every leading digit triple 100..999 x 4 exponents (thorough: 19); powers of ten up to 10^45 and their sums with 2^64, all +-2, x 5 exponents; 42 coefficients/exponents at precisions up to 400 (logarithms and exp up to 1000); pi and e at every precision 1..320 and some up to 1500 (thorough: 4000); 8 bounded and default exponent ranges x 3 rounding modes, unlimited precision and the Go mode x 6 coefficients x exponents up to the library's limits, numbers next to one and arguments where exp leaves each range; 1+d*10^-k for 14 k up to 80 and 4 d to 8 powers of each of 12 magnitudes around 10^k (thorough: 64 k, 48 magnitudes)"
	}})
}
