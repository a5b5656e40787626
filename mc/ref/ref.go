// Package ref is the reference model: a deliberately plain transcription of
// the General Decimal Arithmetic specification over exact integers.  It shares
// no code with the library under test.
package ref

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

type Kind uint8

const (
	Fin Kind = iota
	Inf
	QNaN
	SNaN
)

// Num is an abstract decimal datum: (-1)^Neg * C * 10^E, an infinity or a NaN.
type Num struct {
	K   Kind
	Neg bool
	C   *big.Int // never nil for Fin, never negative
	E   int
}

// Condition bits; same order as the specification's alphabetical list (and as
// the library's constants, which the harness checks by name).
type Cond uint32

const (
	Clamped Cond = 1 << iota
	ConversionSyntax
	DivisionByZero
	DivisionImpossible
	DivisionUndefined
	Inexact
	InsufficientStorage
	InvalidContext
	InvalidOperation
	Overflow
	Rounded
	Subnormal
	Underflow
)

var condNames = []string{"Clamped", "ConversionSyntax", "DivisionByZero", "DivisionImpossible", "DivisionUndefined", "Inexact", "InsufficientStorage", "InvalidContext", "InvalidOperation", "Overflow", "Rounded", "Subnormal", "Underflow"}

func (c Cond) String() string {
	var s []string
	for i, n := range condNames {
		if c&(1<<uint(i)) != 0 {
			s = append(s, n)
		}
	}
	return "{" + strings.Join(s, ",") + "}"
}

type Round uint8

const (
	HalfEven Round = iota
	HalfUp
	Down
	Up
	Floor
	Ceiling
	HalfDown
)

var RoundNames = []string{"HalfEven", "HalfUp", "Down", "Up", "Floor", "Ceiling", "HalfDown"}

// Unlimited as Ctx.Prec means no precision limit.
const Unlimited = 1<<62 - 1

type Ctx struct {
	Prec       int
	Emax, Emin int
	R          Round
	// Range, if positive, is the precision the exponent range is derived from
	// when results are not rounded to it (Go mode).
	Range int
}

func (c Ctx) rp() int {
	if c.Range > 0 {
		return c.Range
	}
	return c.Prec
}

// Exact is c without rounding to the precision; the exponent range remains.
func (c Ctx) Exact() Ctx {
	c.Range = c.rp()
	c.Prec = Unlimited
	return c
}

func (c Ctx) Etiny() int { return c.Emin - (c.rp() - 1) }
func (c Ctx) Etop() int  { return c.Emax - (c.rp() - 1) }

var (
	zero = new(big.Int)
	one  = big.NewInt(1)
	two  = big.NewInt(2)
	ten  = big.NewInt(10)
)

var powTab = func() []*big.Int {
	t := make([]*big.Int, 2000)
	t[0] = big.NewInt(1)
	for i := 1; i < len(t); i++ {
		t[i] = new(big.Int).Mul(t[i-1], ten)
	}
	return t
}()

// Pow10 returns 10^n.
func Pow10(n int) *big.Int {
	if n < 0 {
		panic("ref.Pow10 < 0")
	}
	if n < len(powTab) {
		return powTab[n]
	}
	return new(big.Int).Exp(ten, big.NewInt(int64(n)), nil)
}

// Digits returns the number of decimal digits in x (1 for zero).
func Digits(x *big.Int) int {
	if x.IsUint64() {
		u := x.Uint64()
		n := 1
		for u >= 10 {
			u /= 10
			n++
		}
		return n
	}
	n := int(float64(x.BitLen()-1)*0.30102999566398119521) + 1
	for Pow10(n).Cmp(x) <= 0 {
		n++
	}
	for n > 1 && Pow10(n-1).Cmp(x) > 0 {
		n--
	}
	return n
}

func FinInt(neg bool, c int64, e int) Num { return Num{Fin, neg, big.NewInt(c), e} }
func NaN() Num                            { return Num{K: QNaN} }
func Infinity(neg bool) Num               { return Num{K: Inf, Neg: neg} }
func (n Num) IsNaN() bool                 { return n.K == QNaN || n.K == SNaN }
func (n Num) IsZero() bool                { return n.K == Fin && n.C.Sign() == 0 }
func (n Num) Adj() int                    { return n.E + Digits(n.C) - 1 }

func (n Num) String() string {
	s := ""
	if n.Neg {
		s = "-"
	}
	switch n.K {
	case Inf:
		return s + "Infinity"
	case QNaN:
		return s + "NaN"
	case SNaN:
		return s + "sNaN"
	}
	return s + n.C.String() + "E" + strconv.Itoa(n.E)
}

// Parse reads the format String produces.
func Parse(s string) (Num, error) {
	var n Num
	o := s
	if strings.HasPrefix(s, "-") {
		n.Neg = true
		s = s[1:]
	}
	switch s {
	case "Infinity":
		n.K = Inf
		return n, nil
	case "NaN":
		n.K = QNaN
		return n, nil
	case "sNaN":
		n.K = SNaN
		return n, nil
	}
	i := strings.IndexByte(s, 'E')
	if i < 0 {
		return n, fmt.Errorf("bad number %q", o)
	}
	var ok bool
	n.C, ok = new(big.Int).SetString(s[:i], 10)
	if !ok {
		return n, fmt.Errorf("bad number %q", o)
	}
	var err error
	n.E, err = strconv.Atoi(s[i+1:])
	return n, err
}

func MustParse(s string) Num {
	n, err := Parse(s)
	if err != nil {
		panic(err)
	}
	return n
}

// Same reports representation equality (sign, coefficient, exponent, kind).
func Same(a, b Num) bool {
	if a.K != b.K {
		return false
	}
	if a.IsNaN() {
		return true
	}
	if a.Neg != b.Neg {
		return false
	}
	if a.K == Inf {
		return true
	}
	return a.E == b.E && a.C.Cmp(b.C) == 0
}

// inc decides whether a truncated magnitude q (with remainder class rc:
// 0 exact, 1 below half, 2 half, 3 above half) is incremented.
func inc(r Round, neg, odd bool, rc int) bool {
	if rc == 0 {
		return false
	}
	switch r {
	case HalfEven:
		return rc == 3 || rc == 2 && odd
	case HalfUp:
		return rc >= 2
	case HalfDown:
		return rc == 3
	case Down:
		return false
	case Up:
		return true
	case Floor:
		return neg
	case Ceiling:
		return !neg
	}
	panic("ref: rounding mode")
}

// divClass returns q = a/b and the remainder class.
func divClass(a, b *big.Int) (*big.Int, int) {
	q, m := new(big.Int).QuoRem(a, b, new(big.Int))
	if m.Sign() == 0 {
		return q, 0
	}
	m.Lsh(m, 1)
	switch m.Cmp(b) {
	case -1:
		return q, 1
	case 0:
		return q, 2
	}
	return q, 3
}

// shr drops the last n digits of c and rounds.  n may exceed the length of c.
func shr(r Round, neg bool, c *big.Int, n int) (*big.Int, bool) {
	if c.Sign() == 0 {
		return new(big.Int), false
	}
	if d := Digits(c); n > d {
		// 0 < c/10^n < 1/10: below half
		if inc(r, neg, false, 1) {
			return big.NewInt(1), true
		}
		return new(big.Int), true
	}
	q, rc := divClass(c, Pow10(n))
	if inc(r, neg, q.Bit(0) == 1, rc) {
		q.Add(q, one)
	}
	return q, rc != 0
}

func (c Ctx) overflow(neg bool) (Num, Cond) {
	f := Overflow | Inexact | Rounded
	inf := true
	switch c.R {
	case Down:
		inf = false
	case Floor:
		inf = neg
	case Ceiling:
		inf = !neg
	}
	if inf || c.rp() == Unlimited { // there is no largest number then
		return Infinity(neg), f
	}
	return Num{Fin, neg, new(big.Int).Sub(Pow10(c.rp()), one), c.Etop()}, f
}

// Fix rounds an exact datum to the context: the specification's result
// finalisation (one single rounding, to the precision or to the subnormal grid).
func (c Ctx) Fix(n Num) (Num, Cond) {
	if n.K != Fin {
		return n, 0
	}
	if n.C.Sign() == 0 {
		e := n.E
		if c.rp() < Unlimited && e < c.Etiny() {
			e = c.Etiny()
		}
		if e > c.Emax {
			e = c.Emax
		}
		var f Cond
		if e != n.E {
			f = Clamped
		}
		return Num{Fin, n.Neg, n.C, e}, f
	}
	var f Cond
	d := Digits(n.C)
	adj := n.E + d - 1
	if adj > c.Emax {
		return c.overflow(n.Neg)
	}
	sub := adj < c.Emin
	if sub {
		f |= Subnormal
	}
	emin := n.E
	if d > c.Prec {
		emin = n.E + d - c.Prec
	}
	if c.rp() < Unlimited && sub {
		// the subnormal grid is never finer than the precision's
		if t := c.Etiny(); t > emin || n.E < t {
			if t > emin {
				emin = t
			}
		}
	}
	if emin <= n.E {
		return n, f
	}
	q, inex := shr(c.R, n.Neg, n.C, emin-n.E)
	f |= Rounded
	if Digits(q) > c.Prec {
		q.Quo(q, ten)
		emin++
	}
	if q.Sign() != 0 && emin+Digits(q)-1 > c.Emax {
		return c.overflow(n.Neg)
	}
	if inex {
		f |= Inexact
		if sub {
			f |= Underflow
		}
	}
	if q.Sign() == 0 {
		f |= Clamped
	}
	return Num{Fin, n.Neg, q, emin}, f
}

// nan1 / nan2: NaN propagation (payloads are outside the model).
func nans(xs ...Num) (Num, Cond, bool) {
	for _, x := range xs {
		if x.K == SNaN {
			return Num{K: QNaN, Neg: x.Neg}, InvalidOperation, true
		}
	}
	for _, x := range xs {
		if x.K == QNaN {
			return Num{K: QNaN, Neg: x.Neg}, 0, true
		}
	}
	return Num{}, 0, false
}

func invalid(extra Cond) (Num, Cond) { return NaN(), InvalidOperation | extra }

// ExactAdd is the exact sum of two finite numbers (specification sign rules).
func (c Ctx) ExactAdd(x, y Num) Num {
	e := x.E
	if y.E < e {
		e = y.E
	}
	a := new(big.Int).Mul(x.C, Pow10(x.E-e))
	b := new(big.Int).Mul(y.C, Pow10(y.E-e))
	if x.Neg {
		a.Neg(a)
	}
	if y.Neg {
		b.Neg(b)
	}
	a.Add(a, b)
	neg := a.Sign() < 0
	if a.Sign() == 0 {
		neg = x.Neg && y.Neg || x.Neg != y.Neg && c.R == Floor
	}
	return Num{Fin, neg, a.Abs(a), e}
}

// gapAdd is ExactAdd, except that operands too far apart to write the exact sum
// down are replaced by a sticky digit that no rounding at c.Prec can
// distinguish from the true addend.
func (c Ctx) gapAdd(x, y Num) Num {
	hi, lo := x, y
	if hi.E < lo.E {
		hi, lo = lo, hi
	}
	if hi.C.Sign() != 0 && lo.C.Sign() != 0 && hi.E-lo.E > 3000 && c.Prec < Unlimited {
		dh := Digits(hi.C)
		// lo entirely below one unit at position hi.E - prec - 5
		pos := hi.E
		if t := hi.E + dh - c.Prec; t < pos {
			pos = t
		}
		pos -= 5
		if lo.Adj() < pos {
			return c.ExactAdd(hi, Num{Fin, lo.Neg, one, pos})
		}
	}
	if hi.C.Sign() == 0 && lo.C.Sign() != 0 {
		// the sum is lo exactly
		r := Num{Fin, lo.Neg, lo.C, lo.E}
		return r
	}
	if lo.C.Sign() == 0 && hi.C.Sign() != 0 && hi.E-lo.E > 3000 && c.Prec < Unlimited {
		// padded with zeros far enough for the precision
		pos := hi.E + Digits(hi.C) - c.Prec - 5
		if pos > hi.E {
			pos = hi.E
		}
		if pos < lo.E {
			pos = lo.E
		}
		return Num{Fin, hi.Neg, new(big.Int).Mul(hi.C, Pow10(hi.E-pos)), pos}
	}
	if hi.C.Sign() == 0 && lo.C.Sign() == 0 {
		neg := x.Neg && y.Neg || x.Neg != y.Neg && c.R == Floor
		return Num{Fin, neg, new(big.Int), lo.E}
	}
	return c.ExactAdd(x, y)
}

func (c Ctx) Add(x, y Num) (Num, Cond) {
	r, f := c.add0(x, y)
	if r.K == Fin {
		r2, f2 := c.Fix(r)
		return r2, f | f2
	}
	return r, f
}

// AddExact is Add without the final rounding.
func (c Ctx) AddExact(x, y Num) (Num, Cond) {
	c.Prec = Unlimited
	return c.add0(x, y)
}

func (c Ctx) add0(x, y Num) (Num, Cond) {
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	if x.K == Inf {
		if y.K == Inf && x.Neg != y.Neg {
			return invalid(0)
		}
		return x, 0
	}
	if y.K == Inf {
		return y, 0
	}
	return c.gapAdd(x, y), 0
}

func neg(y Num) Num {
	y.Neg = !y.Neg
	return y
}

func (c Ctx) Sub(x, y Num) (Num, Cond) {
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	return c.Add(x, neg(y))
}

func (c Ctx) SubExact(x, y Num) (Num, Cond) {
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	return c.AddExact(x, neg(y))
}

func (c Ctx) MulExact(x, y Num) (Num, Cond) {
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	s := x.Neg != y.Neg
	if x.K == Inf || y.K == Inf {
		if x.IsZero() || y.IsZero() {
			return invalid(0)
		}
		return Infinity(s), 0
	}
	return Num{Fin, s, new(big.Int).Mul(x.C, y.C), x.E + y.E}, 0
}

func (c Ctx) fixf(r Num, f Cond) (Num, Cond) {
	if r.K != Fin {
		return r, f
	}
	r2, f2 := c.Fix(r)
	return r2, f | f2
}

func (c Ctx) Mul(x, y Num) (Num, Cond) { return c.fixf(c.MulExact(x, y)) }

// FMA: x*y+u, one rounding.
func (c Ctx) FMA(x, y, u Num) (Num, Cond) {
	// specification: multiply first; an invalid product or a signalling NaN in
	// x or y decides the result; otherwise add.
	if r, f, ok := nans(x, y); ok {
		if f != 0 {
			return r, f
		}
		// quiet NaN from the product, then added to u
		return c.Add(r, u)
	}
	p, f := c.MulExact(x, y)
	if f&InvalidOperation != 0 {
		// 0*Inf + qNaN is left to the implementation by the specification
		return p, f
	}
	return c.Add(p, u)
}

// Quo is division with the specification's preferred exponent.
func (c Ctx) Quo(x, y Num) (Num, Cond) {
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	s := x.Neg != y.Neg
	if x.K == Inf {
		if y.K == Inf {
			return invalid(0)
		}
		return Infinity(s), 0
	}
	if y.K == Inf {
		return Num{Fin, s, new(big.Int), c.Etiny()}, Clamped
	}
	if y.IsZero() {
		if x.IsZero() {
			return NaN(), InvalidOperation | DivisionUndefined
		}
		return Infinity(s), DivisionByZero
	}
	ideal := x.E - y.E
	if x.IsZero() {
		return c.Fix(Num{Fin, s, new(big.Int), ideal})
	}
	if c.Prec == Unlimited {
		return c.quoUnlimited(x, y, s, ideal)
	}
	shift := Digits(y.C) - Digits(x.C) + c.Prec + 1
	e := ideal - shift
	a, b := x.C, y.C
	if shift >= 0 {
		a = new(big.Int).Mul(a, Pow10(shift))
	} else {
		b = new(big.Int).Mul(b, Pow10(-shift))
	}
	q, m := new(big.Int).QuoRem(a, b, new(big.Int))
	if m.Sign() != 0 {
		// make the quotient end in a sticky digit
		q.Mul(q, ten)
		q.Add(q, one)
		e--
	} else {
		for e < ideal {
			qq, mm := new(big.Int).QuoRem(q, ten, new(big.Int))
			if mm.Sign() != 0 {
				break
			}
			q = qq
			e++
		}
	}
	return c.Fix(Num{Fin, s, q, e})
}

// quoUnlimited is the exact quotient, or an invalid result when its expansion
// does not terminate.
func (c Ctx) quoUnlimited(x, y Num, s bool, ideal int) (Num, Cond) {
	g := new(big.Int).GCD(nil, nil, x.C, y.C)
	a := new(big.Int).Quo(x.C, g)
	b := new(big.Int).Quo(y.C, g)
	e := ideal
	m := new(big.Int)
	for _, p := range []struct{ div, mul int64 }{{10, 1}, {2, 5}, {5, 2}} {
		d := big.NewInt(p.div)
		for {
			q := new(big.Int)
			q.QuoRem(b, d, m)
			if m.Sign() != 0 {
				break
			}
			b = q
			a.Mul(a, big.NewInt(p.mul))
			e--
		}
	}
	if b.Cmp(one) != 0 {
		return NaN(), InvalidOperation | InvalidContext | InsufficientStorage | Inexact | Rounded
	}
	q := new(big.Int)
	for e < ideal {
		q.QuoRem(a, ten, m)
		if m.Sign() != 0 {
			break
		}
		a.Set(q)
		e++
	}
	return c.Fix(Num{Fin, s, a, e})
}

// QuoInt is the specification's divide-integer.
func (c Ctx) QuoInt(x, y Num) (Num, Cond) {
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	s := x.Neg != y.Neg
	if x.K == Inf {
		if y.K == Inf {
			return invalid(0)
		}
		return Infinity(s), 0
	}
	if y.K == Inf {
		return Num{Fin, s, new(big.Int), 0}, 0
	}
	if y.IsZero() {
		if x.IsZero() {
			return NaN(), InvalidOperation | DivisionUndefined
		}
		return Infinity(s), DivisionByZero
	}
	q, _, ok := c.intDiv(x, y)
	if !ok || Digits(q) > c.Prec {
		return NaN(), DivisionImpossible
	}
	return c.Fix(Num{Fin, s, q, 0})
}

// intDiv returns |x| div |y| and the remainder coefficient at exponent
// min(x.E,y.E); ok is false if the quotient certainly has more than Prec digits.
func (c Ctx) intDiv(x, y Num) (q, r *big.Int, ok bool) {
	e := x.E
	if y.E < e {
		e = y.E
	}
	if x.C.Sign() != 0 {
		if x.Adj()-y.Adj() > c.Prec+1 {
			return nil, nil, false
		}
		if x.Adj() < y.Adj()-1 && y.E > x.E {
			return new(big.Int), x.C, true
		}
	} else {
		return new(big.Int), new(big.Int), true
	}
	a := new(big.Int).Mul(x.C, Pow10(x.E-e))
	b := new(big.Int).Mul(y.C, Pow10(y.E-e))
	q, r = new(big.Int).QuoRem(a, b, new(big.Int))
	return q, r, true
}

// Rem is the specification's remainder.
func (c Ctx) Rem(x, y Num, lossless bool) (Num, Cond) {
	fix := c
	if lossless {
		fix = fix.Exact()
	}
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	if x.K == Inf {
		return invalid(0)
	}
	if y.K == Inf {
		return fix.Fix(x)
	}
	if y.IsZero() {
		if x.IsZero() {
			return NaN(), InvalidOperation | DivisionUndefined
		}
		return NaN(), InvalidOperation | DivisionByZero
	}
	e := x.E
	if y.E < e {
		e = y.E
	}
	if x.IsZero() {
		return fix.Fix(Num{Fin, x.Neg, new(big.Int), e})
	}
	q, r, ok := c.intDiv(x, y)
	if !ok || Digits(q) > c.Prec {
		return NaN(), DivisionImpossible
	}
	return fix.Fix(Num{Fin, x.Neg, r, e})
}

// Quantize rescales x to exponent e.
func (c Ctx) Quantize(x Num, e int) (Num, Cond) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	if x.K == Inf || e > c.Emax || e < c.Etiny() {
		return invalid(0)
	}
	if x.IsZero() {
		return Num{Fin, x.Neg, x.C, e}, 0
	}
	var f Cond
	r := Num{K: Fin, Neg: x.Neg, E: e}
	if e <= x.E {
		if x.Adj()-e+1 > c.Prec {
			return invalid(0)
		}
		r.C = new(big.Int).Mul(x.C, Pow10(x.E-e))
	} else {
		q, inex := shr(c.R, x.Neg, x.C, e-x.E)
		r.C = q
		f |= Rounded
		if inex {
			f |= Inexact
		}
		if Digits(q) > c.Prec {
			return invalid(0)
		}
	}
	if r.C.Sign() != 0 && r.Adj() > c.Emax {
		return invalid(0)
	}
	if r.C.Sign() != 0 && r.Adj() < c.Emin {
		f |= Subnormal
	}
	return r, f
}

// ToInt is round-to-integral-exact.
func (c Ctx) ToInt(x Num) (Num, Cond) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	if x.K == Inf || x.E >= 0 {
		return x, 0
	}
	if x.IsZero() {
		return Num{Fin, x.Neg, x.C, 0}, 0
	}
	q, inex := shr(c.R, x.Neg, x.C, -x.E)
	f := Rounded
	if inex {
		f |= Inexact
	}
	if q.Sign() != 0 && Digits(q)-1 > c.Emax { // as for quantize
		return NaN(), InvalidOperation
	}
	return Num{Fin, x.Neg, q, 0}, f
}

// Reduce is the specification's reduce (plus, then strip trailing zeros).
func (c Ctx) Reduce(x Num) (Num, Cond) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	r, f := c.Fix(x)
	if r.K != Fin {
		return r, f
	}
	return Strip(r, c.Emax), f
}

// Strip removes trailing zeros (zero becomes 0E0).
func Strip(r Num, emax int) Num {
	if r.C.Sign() == 0 {
		return Num{Fin, r.Neg, r.C, 0}
	}
	q := new(big.Int).Set(r.C)
	m := new(big.Int)
	t := new(big.Int)
	e := r.E
	for e < emax {
		t.QuoRem(q, ten, m)
		if m.Sign() != 0 {
			break
		}
		q.Set(t)
		e++
	}
	return Num{Fin, r.Neg, q, e}
}

// Sqrt is the specification's square-root (always half-even).
func (c Ctx) Sqrt(x Num) (Num, Cond) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	floorHalf := func(e int) int { return (e - (e & 1)) / 2 }
	if x.IsZero() {
		c2 := c
		return c2.Fix(Num{Fin, x.Neg, x.C, floorHalf(x.E)})
	}
	if x.Neg {
		return invalid(0)
	}
	if x.K == Inf {
		return x, 0
	}
	// scale so the integer root has prec+1 digits at least
	d := Digits(x.C)
	e := x.E
	want := 2*(c.Prec+2) - d
	if want < 0 || c.Prec == Unlimited { // unlimited: exact roots only
		want = 0
	}
	if (e-want)&1 != 0 {
		want++
	}
	n := new(big.Int).Mul(x.C, Pow10(want))
	e -= want
	q := new(big.Int).Sqrt(n)
	exact := new(big.Int).Mul(q, q).Cmp(n) == 0
	re := e / 2
	if e < 0 && e%2 != 0 {
		panic("odd")
	}
	if !exact && c.Prec == Unlimited {
		return NaN(), InvalidOperation | InvalidContext | InsufficientStorage
	}
	if exact {
		ideal := floorHalf(x.E)
		for re < ideal {
			qq, mm := new(big.Int).QuoRem(q, ten, new(big.Int))
			if mm.Sign() != 0 {
				break
			}
			q = qq
			re++
		}
	} else {
		q.Mul(q, ten)
		q.Add(q, one)
		re--
	}
	c.R = HalfEven
	return c.Fix(Num{Fin, false, q, re})
}

// NextPlus / NextMinus
func (c Ctx) Next(x Num, up bool) (Num, Cond) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	if x.K == Inf {
		if x.Neg != up {
			return x, 0
		}
		return Num{Fin, x.Neg, new(big.Int).Sub(Pow10(c.Prec), one), c.Etop()}, 0
	}
	cc := c
	if up {
		cc.R = Ceiling
	} else {
		cc.R = Floor
	}
	r, _ := cc.Fix(x)
	if r.K == Inf || Cmp(r, x) != 0 {
		return r, 0
	}
	r, _ = cc.Fix(cc.gapAdd(r, Num{Fin, !up, one, c.Etiny() - 1}))
	return r, 0
}

// Cmp compares two non-NaN numbers by value.
func Cmp(x, y Num) int {
	s := func(n Num) int {
		if n.IsZero() {
			return 0
		}
		if n.K == Inf {
			if n.Neg {
				return -2
			}
			return 2
		}
		if n.Neg {
			return -1
		}
		return 1
	}
	a, b := s(x), s(y)
	if a != b {
		if a < b {
			return -1
		}
		return 1
	}
	if a == 0 || a == 2 || a == -2 {
		return 0
	}
	r := cmpAbs(x, y)
	return r * a
}

func cmpAbs(x, y Num) int {
	if p, q := x.Adj(), y.Adj(); p != q {
		if p < q {
			return -1
		}
		return 1
	}
	e := x.E
	if y.E < e {
		e = y.E
	}
	a := new(big.Int).Mul(x.C, Pow10(x.E-e))
	b := new(big.Int).Mul(y.C, Pow10(y.E-e))
	return a.Cmp(b)
}

func Abs(x Num) Num {
	x.Neg = false
	return x
}

func Negate(x Num) Num { return neg(x) }
