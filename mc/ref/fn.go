package ref

import (
	"fmt"
	"math/big"
)

// Real is a real number known to within Err units: |value - M*10^-W| <= Err*10^-W.
type Real struct {
	M     *big.Int
	W     int
	Err   int64
	Exact bool
	// Over is +1 or -1 when the exponent is beyond the int64 range.
	Over int
	Neg  bool
}

// Num gives the approximation as a decimal datum.
func (r Real) Num() Num {
	n := Num{K: Fin, Neg: r.M.Sign() < 0, C: new(big.Int).Abs(r.M), E: -r.W}
	return n
}

func divRound(a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	r.Lsh(r.Abs(r), 1)
	if r.Cmp(new(big.Int).Abs(b)) >= 0 {
		if (a.Sign() < 0) != (b.Sign() < 0) {
			q.Sub(q, one)
		} else {
			q.Add(q, one)
		}
	}
	return q
}

// fixed converts a finite datum to w fractional digits (error at most one half unit).
func fixed(n Num, w int) *big.Int {
	var r *big.Int
	if n.E+w >= 0 {
		r = new(big.Int).Mul(n.C, Pow10(n.E+w))
	} else if -(n.E + w) > Digits(n.C)+2 {
		r = new(big.Int)
	} else {
		r = divRound(n.C, Pow10(-(n.E + w)))
	}
	if n.Neg {
		r.Neg(r)
	}
	return r
}

func fmul(a, b *big.Int, w int) *big.Int {
	r := new(big.Int).Mul(a, b)
	return r.Quo(r, Pow10(w))
}

// atanhInv is atanh(1/n) with w digits.
func atanInv(n int64, w int, alt bool) *big.Int {
	t := new(big.Int).Quo(Pow10(w), big.NewInt(n))
	n2 := big.NewInt(n * n)
	sum := new(big.Int).Set(t)
	for k := int64(1); t.Sign() != 0; k++ {
		t.Quo(t, n2)
		u := new(big.Int).Quo(t, big.NewInt(2*k+1))
		if alt && k%2 == 1 {
			sum.Sub(sum, u)
		} else {
			sum.Add(sum, u)
		}
	}
	return sum
}

type constCache struct {
	w int
	v *big.Int
}

var ln10c, pic, ec constCache

func cached(c *constCache, w int, f func(w int) *big.Int) *big.Int {
	if c.v == nil || c.w < w {
		c.w = w + 100
		c.v = f(c.w)
	}
	return new(big.Int).Quo(c.v, Pow10(c.w-w))
}

// Ln10Fix is ln(10) with w digits, within 2 units.
func Ln10Fix(w int) *big.Int {
	return cached(&ln10c, w, func(w int) *big.Int {
		g := w + 10
		s := new(big.Int).Mul(atanInv(3, g, false), big.NewInt(6))
		s.Add(s, new(big.Int).Mul(atanInv(9, g, false), two))
		return s.Quo(s, Pow10(10))
	})
}

// PiFix is pi with w digits, within 2 units (Machin).
func PiFix(w int) *big.Int {
	return cached(&pic, w, func(w int) *big.Int {
		g := w + 10
		s := new(big.Int).Mul(atanInv(5, g, true), big.NewInt(16))
		s.Sub(s, new(big.Int).Mul(atanInv(239, g, true), big.NewInt(4)))
		return s.Quo(s, Pow10(10))
	})
}

// expFrac is e^r for a fixed-point 0 <= r < 3.
func expFrac(r *big.Int, w int) *big.Int {
	const h = 16
	g := w + 15
	x := new(big.Int).Mul(r, Pow10(15))
	x.Rsh(x, h)
	sum := new(big.Int).Set(Pow10(g))
	t := new(big.Int).Set(Pow10(g))
	for k := int64(1); t.Sign() != 0; k++ {
		t = fmul(t, x, g)
		t.Quo(t, big.NewInt(k))
		sum.Add(sum, t)
	}
	for i := 0; i < h; i++ {
		sum = fmul(sum, sum, g)
	}
	return sum.Quo(sum, Pow10(15))
}

// expFix is e^x for fixed-point x with w digits as m*10^(k-w), m with about w digits.
func expFix(x *big.Int, w int) (m *big.Int, k int) {
	l := Ln10Fix(w)
	q, r := new(big.Int).DivMod(x, l, new(big.Int))
	return expFrac(r, w), int(q.Int64())
}

// EFix is e.
func EFix(w int) *big.Int {
	return cached(&ec, w, func(w int) *big.Int { return expFrac(Pow10(w), w) })
}

// lnFix is ln(n) with w digits, for positive n.
func lnFix(n Num, w int) *big.Int {
	g := w + 20
	d := Digits(n.C)
	k := n.E + d - 1
	m := fixed(Num{C: n.C, E: -(d - 1)}, g)
	if new(big.Int).Mul(m, m).Cmp(Pow10(2*g+1)) > 0 {
		k++
		m = fixed(Num{C: n.C, E: -d}, g)
	}
	// roots until |m-1| < 0.06
	s := uint(0)
	for {
		df := new(big.Int).Sub(m, Pow10(g))
		if df.Abs(df).Cmp(new(big.Int).Mul(Pow10(g-2), big.NewInt(6))) < 0 {
			break
		}
		m.Sqrt(m.Mul(m, Pow10(g)))
		s++
	}
	num := new(big.Int).Sub(m, Pow10(g))
	den := new(big.Int).Add(m, Pow10(g))
	y := num.Mul(num, Pow10(g))
	y.Quo(y, den)
	y2 := fmul(y, y, g)
	sum := new(big.Int).Set(y)
	t := new(big.Int).Set(y)
	for j := int64(3); ; j += 2 {
		t = fmul(t, y2, g)
		u := new(big.Int).Quo(t, big.NewInt(j))
		if u.Sign() == 0 {
			break
		}
		sum.Add(sum, u)
	}
	sum.Lsh(sum, s+1)
	kk := new(big.Int).Mul(Ln10Fix(g+20), big.NewInt(int64(k)))
	sum.Add(sum, kk.Quo(kk, Pow10(20)))
	return sum.Quo(sum, Pow10(20))
}

// sincos gives sin and cos of a datum with w digits.
func sincos(n Num, w int) (sin, cos *big.Int) {
	extra := 0
	if a := n.Adj(); a > 0 {
		extra = a
	}
	g := w + 15
	x := fixed(n, g+extra)
	half := PiFix(g + extra) // pi
	half.Quo(half, two)
	q := divRound(x, half)
	// recompute q*pi/2 with enough digits
	p := PiFix(g + 2*extra + 5)
	p.Mul(p, q)
	p.Quo(p, two)
	x = fixed(n, g+2*extra+5)
	r := x.Sub(x, p)
	r.Quo(r, Pow10(2*extra+5))
	r2 := fmul(r, r, g)
	s, c := new(big.Int).Set(r), new(big.Int).Set(Pow10(g))
	ts, tc := new(big.Int).Set(r), new(big.Int).Set(Pow10(g))
	for k := int64(1); ts.Sign() != 0 || tc.Sign() != 0; k++ {
		tc = fmul(tc, r2, g)
		tc.Quo(tc, big.NewInt((2*k-1)*(2*k))).Neg(tc)
		c.Add(c, tc)
		ts = fmul(ts, r2, g)
		ts.Quo(ts, big.NewInt((2*k)*(2*k+1))).Neg(ts)
		s.Add(s, ts)
	}
	switch new(big.Int).And(q, big.NewInt(3)).Int64() {
	case 0:
	case 1:
		s, c = c, s.Neg(s)
	case 2:
		s.Neg(s)
		c.Neg(c)
	case 3:
		s, c = c.Neg(c), s
	}
	return s.Quo(s, Pow10(15)), c.Quo(c, Pow10(15))
}

// atanQ is atan(a/b) with w digits, b > 0 or b == 0 meaning infinity.
func atanQ(a, b *big.Int, w int) *big.Int {
	neg := a.Sign() < 0
	a = new(big.Int).Abs(a)
	g := w + 15
	var r *big.Int
	if a.Cmp(b) > 0 {
		r = PiFix(g)
		r.Quo(r, two)
		r.Sub(r, atan01(b, a, g))
	} else {
		r = atan01(a, b, g)
	}
	r.Quo(r, Pow10(15))
	if neg {
		r.Neg(r)
	}
	return r
}

func atan01(a, b *big.Int, g int) *big.Int {
	g += 5
	x := new(big.Int).Mul(a, Pow10(g))
	x.Quo(x, b)
	const h = 5
	for i := 0; i < h; i++ {
		s := new(big.Int).Mul(x, x)
		s.Add(s, Pow10(2*g))
		s.Sqrt(s)
		s.Add(s, Pow10(g))
		x.Mul(x, Pow10(g))
		x.Quo(x, s)
	}
	x2 := fmul(x, x, g)
	sum := new(big.Int).Set(x)
	t := new(big.Int).Set(x)
	for k := int64(1); ; k++ {
		t = fmul(t, x2, g)
		u := new(big.Int).Quo(t, big.NewInt(2*k+1))
		if u.Sign() == 0 {
			break
		}
		if k%2 == 1 {
			sum.Sub(sum, u)
		} else {
			sum.Add(sum, u)
		}
	}
	sum.Lsh(sum, h)
	return sum.Quo(sum, Pow10(5))
}

// ratio of a datum as integers.
func ratio(n Num) (a, b *big.Int) {
	a, b = new(big.Int).Set(n.C), big.NewInt(1)
	if n.E >= 0 {
		a.Mul(a, Pow10(n.E))
	} else {
		b = Pow10(-n.E)
	}
	if n.Neg {
		a.Neg(a)
	}
	return a, b
}

func sqrtRatio(a, b *big.Int, w int) *big.Int {
	r := new(big.Int).Mul(a, Pow10(2*w))
	r.Quo(r, b)
	return r.Sqrt(r)
}

// isInt reports whether n is an integer and returns it.
func isInt(n Num) (*big.Int, bool) {
	a, b := ratio(n)
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	return q, r.Sign() == 0
}

// Fn evaluates a function at finite arguments inside its domain with at least
// digs significant digits.  A result beyond the int64 exponents has Over set.
func Fn(name string, x, y Num, digs int) Real {
	if r, ok := far(name, x, y, digs); ok {
		return r
	}
	for w := digs + 25; ; {
		r := fn1(name, x, y, w)
		if r.Exact || Digits(new(big.Int).Abs(r.M)) >= digs+8 || w > 20*digs+4000 {
			return r
		}
		w += w/2 + 20
	}
}

// approxNum is a Real within one unit of its last place of n.
func approxNum(n Num, digs int) Real {
	m := new(big.Int).Set(n.C)
	w := -n.E
	if d := digs + 40 - Digits(m); d > 0 {
		m.Mul(m, Pow10(d))
		w += d
	}
	if n.Neg {
		m.Neg(m)
	}
	return Real{M: m, W: w, Err: 1}
}

func half(m *big.Int, neg bool, w int) Real {
	m = new(big.Int).Quo(m, two)
	if neg {
		m.Neg(m)
	}
	return Real{M: m, W: w, Err: 1000}
}

// far handles arguments whose exponents are too large for fixed-point
// evaluation, from the first term of the expansion at zero or infinity.
func far(name string, x, y Num, digs int) (Real, bool) {
	lim := 2*digs + 30
	switch name {
	case "Sin", "Tan", "Asin", "Atan":
		if !x.IsZero() && x.Adj() < -lim {
			return approxNum(x, digs), true
		}
		if name == "Atan" && !x.IsZero() && x.Adj() > lim {
			return half(PiFix(digs+40), x.Neg, digs+40), true
		}
	case "Cos":
		if !x.IsZero() && x.Adj() < -lim {
			return approxNum(FinInt(false, 1, 0), digs), true
		}
	case "Acos":
		if !x.IsZero() && x.Adj() < -lim {
			return half(PiFix(digs+40), false, digs+40), true
		}
	case "Exp":
		switch {
		case x.IsZero():
		case x.Adj() < -lim:
			return approxNum(FinInt(false, 1, 0), digs), true
		case x.Adj() > 18:
			o := 1
			if x.Neg {
				o = -1
			}
			return Real{Over: o}, true
		}
	case "Hypot":
		if x.IsZero() {
			return exactReal(Abs(y)), true
		}
		if y.IsZero() {
			return exactReal(Abs(x)), true
		}
		d := x.Adj() - y.Adj()
		if d > lim {
			return approxNum(Abs(x), digs), true
		}
		if d < -lim {
			return approxNum(Abs(y), digs), true
		}
		s := x.Adj()
		if abs(s) > 100 {
			x.E -= s
			y.E -= s
			r := Fn(name, x, y, digs)
			r.W -= s
			return r, true
		}
	case "Atan2": // y-coordinate x, x-coordinate y
		if x.IsZero() || y.IsZero() {
			break
		}
		d := x.Adj() - y.Adj()
		if d > lim {
			return half(PiFix(digs+40), x.Neg, digs+40), true
		}
		if d < -lim {
			if y.Neg {
				m := new(big.Int).Set(PiFix(digs + 40))
				if x.Neg {
					m.Neg(m)
				}
				return Real{M: m, W: digs + 40, Err: 1000}, true
			}
			g := digs + 60
			q := new(big.Int).Mul(x.C, Pow10(g+Digits(y.C)))
			q.Quo(q, y.C)
			if x.Neg {
				q.Neg(q)
			}
			return Real{M: q, W: g + Digits(y.C) - x.E + y.E, Err: 2}, true
		}
		if s := x.Adj(); abs(s) > 100 {
			x.E -= s
			y.E -= s
			return Fn(name, x, y, digs), true
		}
	case "Pow":
		if y.IsZero() || x.IsZero() {
			break
		}
		ax := Abs(x)
		if Cmp(ax, FinInt(false, 1, 0)) == 0 {
			break
		}
		// log10|x| to a few digits
		l := Fn("Log", ax, Num{}, 25)
		ln := new(big.Float).SetInt(l.M)
		ln.Quo(ln, new(big.Float).SetInt(Pow10(l.W)))
		ln.Quo(ln, big.NewFloat(2.302585092994046))
		yc := new(big.Float).SetInt(y.C)
		if y.Neg {
			yc.Neg(yc)
		}
		e := y.E
		if e > 3000 {
			e = 3000
		}
		if e < -2000 {
			return approxNum(FinInt(false, 1, 0), digs), true
		}
		if e >= 0 {
			yc.Mul(yc, new(big.Float).SetInt(Pow10(e)))
		} else {
			yc.Quo(yc, new(big.Float).SetInt(Pow10(-e)))
		}
		v, _ := yc.Mul(yc, ln).Float64()
		neg := false
		if n, ok := isOddInt(y); ok {
			neg = x.Neg && n
		}
		switch {
		case v > 2e18:
			return Real{Over: 1, Neg: neg}, true
		case v < -4e18:
			return Real{Over: -1, Neg: neg}, true
		case v > -1e-300 && v < 1e-300:
			return approxNum(FinInt(neg, 1, 0), digs), true
		}
	}
	return Real{}, false
}

func isOddInt(y Num) (bool, bool) {
	s := Strip(y, 1<<60)
	if s.E < 0 {
		return false, false
	}
	return s.E == 0 && s.C.Bit(0) == 1, true
}

func exactReal(n Num) Real {
	m := new(big.Int).Set(n.C)
	if n.Neg {
		m.Neg(m)
	}
	return Real{M: m, W: -n.E, Exact: true}
}

func fn1(name string, x, y Num, w int) Real {
	app := func(m *big.Int) Real { return Real{M: m, W: w, Err: 1000} }
	exact := func(n Num) Real {
		m := new(big.Int).Set(n.C)
		if n.Neg {
			m.Neg(m)
		}
		return Real{M: m, W: -n.E, Exact: true}
	}
	switch name {
	case "Pi":
		return app(PiFix(w))
	case "E":
		return app(EFix(w))
	case "Exp":
		if x.IsZero() {
			return exact(FinInt(false, 1, 0))
		}
		g := w + 5
		if a := x.Adj(); a > 0 {
			g += a
		}
		m, k := expFix(fixed(x, g), g)
		return Real{M: m, W: g - k, Err: 100000}
	case "Log":
		if Cmp(x, FinInt(false, 1, 0)) == 0 {
			return exact(FinInt(false, 0, 0))
		}
		return app(lnFix(x, w))
	case "Log10":
		if s := Strip(x, 1<<60); s.C.Cmp(one) == 0 {
			return exact(FinInt(s.E < 0, int64(abs(s.E)), 0))
		}
		a := lnFix(x, w+5)
		a.Mul(a, Pow10(w+5))
		a.Quo(a, Ln10Fix(w+5))
		return app(a.Quo(a, Pow10(5)))
	case "Sin", "Cos", "Tan":
		if x.IsZero() {
			if name == "Cos" {
				return exact(FinInt(false, 1, 0))
			}
			return exact(FinInt(x.Neg, 0, 0))
		}
		s, c := sincos(x, w)
		switch name {
		case "Sin":
			return app(s)
		case "Cos":
			return app(c)
		}
		// tan: enough digits even when cos is small
		lost := w - Digits(new(big.Int).Abs(c))
		if a := x.Adj(); a < 0 {
			lost -= a
		}
		s, c = sincos(x, w+2*lost+10)
		s.Mul(s, Pow10(w))
		return app(s.Quo(s, c))
	case "Atan":
		if x.IsZero() {
			return exact(FinInt(x.Neg, 0, 0))
		}
		a, b := ratio(x)
		return app(atanQ(a, b, w))
	case "Asin", "Acos":
		if x.IsZero() && name == "Asin" {
			return exact(FinInt(x.Neg, 0, 0))
		}
		a, b := ratio(x)
		g := w + 10
		s := new(big.Int).Mul(b, b)
		s.Sub(s, new(big.Int).Mul(a, a)) // (b^2 - a^2) = b^2 (1-x^2)
		if s.Sign() == 0 {
			if name == "Acos" && a.Sign() > 0 {
				return exact(FinInt(false, 0, 0))
			}
			p := PiFix(w)
			if name == "Asin" {
				p.Quo(p, two)
				if a.Sign() < 0 {
					p.Neg(p)
				}
			}
			return app(p)
		}
		s.Mul(s, Pow10(2*g))
		s.Sqrt(s)                          // sqrt(1-x^2) * b * 10^g
		t := new(big.Int).Mul(a, Pow10(g)) // x * b * 10^g
		if name == "Asin" {
			return app(atanQ(t, s, w))
		}
		// acos = 2 atan( sqrt(1-x^2) / (1+x) )
		t.Add(t, new(big.Int).Mul(b, Pow10(g)))
		r := atanQ(s, t, w)
		return app(r.Lsh(r, 1))
	case "Atan2": // atan2(x=y-coordinate, y=x-coordinate)
		ya, yb := ratio(x)
		xa, xb := ratio(y)
		num := new(big.Int).Mul(ya, xb)
		den := new(big.Int).Mul(xa, yb)
		sgn := den.Sign()
		if sgn < 0 {
			den.Neg(den)
			num.Neg(num)
		}
		r := atanQ(num, den, w)
		if sgn < 0 {
			if ya.Sign() < 0 || (ya.Sign() == 0 && x.Neg) {
				r.Sub(r, PiFix(w))
			} else {
				r.Add(r, PiFix(w))
			}
		}
		return app(r)
	case "Hypot":
		pa, pb := ratio(x)
		qa, qb := ratio(y)
		num := new(big.Int).Mul(pa, qb)
		num.Mul(num, num)
		t := new(big.Int).Mul(qa, pb)
		num.Add(num, t.Mul(t, t))
		den := new(big.Int).Mul(pb, qb)
		// sqrt(num)/den
		s := new(big.Int).Sqrt(num)
		if new(big.Int).Mul(s, s).Cmp(num) == 0 {
			// rational; exact when den is a power of ten, which it is
			return exact(Num{K: Fin, C: s, E: -(Digits(den) - 1)})
		}
		num.Mul(num, Pow10(2*w))
		num.Sqrt(num)
		return app(num.Quo(num, den))
	case "Pow":
		return pow1(x, y, w)
	}
	panic("fn " + name)
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func pow1(x, y Num, w int) Real {
	exact := func(n Num) Real {
		m := new(big.Int).Set(n.C)
		if n.Neg {
			m.Neg(m)
		}
		return Real{M: m, W: -n.E, Exact: true}
	}
	if y.IsZero() {
		return exact(FinInt(false, 1, 0))
	}
	if n, ok := isInt(y); ok {
		sx := Strip(x, 1<<60)
		neg := x.Neg && n.Bit(0) == 1
		if n.IsInt64() && abs(int(n.Int64())) <= 5000 && Digits(sx.C)*abs(int(n.Int64())) < 20000 {
			k := n.Int64()
			c := new(big.Int).Exp(sx.C, big.NewInt(int64(abs(int(k)))), nil)
			e := sx.E * abs(int(k))
			if k > 0 {
				return exact(Num{K: Fin, Neg: neg, C: c, E: e})
			}
			if sx.C.Cmp(one) == 0 {
				return exact(Num{K: Fin, Neg: neg, C: c, E: -e})
			}
			// 10^(w+d) / c * 10^(-e)
			d := Digits(c)
			q, r := new(big.Int).QuoRem(Pow10(w+d), c, new(big.Int))
			if neg {
				q.Neg(q)
			}
			return Real{M: q, W: w + d + e, Err: 2, Exact: r.Sign() == 0}
		}
		if sx.C.Cmp(one) == 0 && n.IsInt64() {
			return exact(Num{K: Fin, Neg: neg, C: big.NewInt(1), E: sx.E * int(n.Int64())})
		}
	}
	ax := x
	ax.Neg = false
	if Cmp(ax, FinInt(false, 1, 0)) == 0 {
		one := FinInt(false, 1, 0)
		if n, ok := isInt(y); ok && x.Neg && n.Bit(0) == 1 {
			one.Neg = true
		}
		return exact(one)
	}
	// e^(y ln x)
	ex := 10
	if a := y.Adj(); a > 0 {
		ex += a
	}
	if a := abs(x.Adj()); a > 0 {
		ex += Digits(big.NewInt(int64(a)))
	}
	yd := Digits(y.C)
	g := w + ex + 10
	l := lnFix(ax, g+yd)
	l.Mul(l, y.C)
	if y.Neg {
		l.Neg(l)
	}
	// l * 10^-(g+yd) * 10^E
	var arg *big.Int
	if y.E >= 0 {
		arg = l.Mul(l, Pow10(y.E))
	} else if -y.E < 100000 {
		arg = l.Quo(l, Pow10(-y.E))
	} else {
		arg = new(big.Int)
	}
	arg.Quo(arg, Pow10(yd))
	m, k := expFix(arg, g)
	if n, ok := isInt(y); ok && x.Neg && n.Bit(0) == 1 {
		m.Neg(m)
	}
	return Real{M: m, W: g - k, Err: int64(Pow10(minInt(ex+6, 17)).Int64())}
}

// Ulps returns how far got is from r, in units of the last place of a result
// with prec digits, as a rational truncated to 1/1000 (lower bound, given r's
// own uncertainty), and whether got is the correctly rounded value is decided
// elsewhere.  abs10 >= 0 replaces the relative unit by 10^-abs10.
func Ulps(got Num, r Real, prec int, absUnit *int) *big.Rat {
	gm := new(big.Int).Set(got.C)
	if got.Neg {
		gm.Neg(gm)
	}
	// common scale
	e := -r.W
	if got.E < e {
		e = got.E
	}
	a := new(big.Int).Mul(gm, Pow10(got.E-e))
	b := new(big.Int).Mul(r.M, Pow10(-r.W-e))
	er := new(big.Int).Mul(big.NewInt(r.Err), Pow10(-r.W-e))
	if r.Exact {
		er.SetInt64(0)
	}
	d := a.Sub(a, b)
	d.Abs(d)
	d.Sub(d, er)
	if d.Sign() < 0 {
		d.SetInt64(0)
	}
	var unit int
	if absUnit != nil {
		unit = *absUnit
	} else {
		unit = -r.W + Digits(new(big.Int).Abs(r.M)) - prec
		if u := got.E + Digits(got.C) - prec; got.C.Sign() != 0 && u > unit {
			unit = u
		}
	}
	// d*10^e / 10^unit
	q := new(big.Rat).SetInt(d)
	if e >= unit {
		q.Mul(q, new(big.Rat).SetInt(Pow10(e-unit)))
	} else {
		q.Quo(q, new(big.Rat).SetInt(Pow10(unit-e)))
	}
	return q
}

func (r Real) String() string {
	if r.Over != 0 {
		return fmt.Sprintf("out of range (%+d)", r.Over)
	}
	return fmt.Sprintf("%se%d (err %d)", r.M, -r.W, r.Err)
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
