package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/ericlagergren/decimal"
	dmath "github.com/ericlagergren/decimal/math"

	"verif/mc/ref"
)

// C17: the generic series and continued fraction evaluators.
//
// A case's S names the family of terms, N and M are its numeric arguments;
// T selects how the terms and the working storage are provided.

// Series ---------------------------------------------------------------------

// term functions a, b, p, q of a series over n = 0, 1, ...
type series struct{ f [4]func(n uint64) int64 }

var firstPrimes = func() []int64 {
	var ps []int64
	for v := int64(2); len(ps) < 1200; v++ {
		ok := true
		for _, q := range ps {
			if q*q > v {
				break
			}
			if v%q == 0 {
				ok = false
				break
			}
		}
		if ok {
			ps = append(ps, v)
		}
	}
	return ps
}()

func konst(v int64) func(uint64) int64 { return func(uint64) int64 { return v } }

// seriesOf decodes a family.
func seriesOf(s string) series {
	name, arg := s, ""
	if i := strings.IndexByte(s, ':'); i >= 0 {
		name, arg = s[:i], s[i+1:]
	}
	switch name {
	case "prime": // every value is another prime
		var r series
		for k := range r.f {
			k := uint64(k)
			r.f[k] = func(n uint64) int64 { return firstPrimes[4*(n%256)+k] }
		}
		return r
	case "signed":
		var r series
		for k := range r.f {
			k := uint64(k)
			r.f[k] = func(n uint64) int64 {
				v := firstPrimes[4*(n%256)+k]
				if (n*7+k*3)%5 < 2 {
					v = -v
				}
				return v
			}
		}
		return r
	case "digits": // the values are listed: abpq of 0, abpq of 1, ...
		var r series
		vals := []int64{1, -2, 3, 0, -1, 10}
		for k := range r.f {
			k := uint64(k)
			r.f[k] = func(n uint64) int64 {
				if i := 4*n + k; i < uint64(len(arg)) {
					return vals[arg[i]-'0']
				}
				return 1
			}
		}
		return r
	}
	// convergent: name:u/v@k, all terms times 10^k
	var u, v int64
	k := 0
	if i := strings.IndexByte(arg, '@'); i >= 0 {
		k, _ = strconv.Atoi(arg[i+1:])
		arg = arg[:i]
	}
	if _, err := fmt.Sscanf(arg, "%d/%d", &u, &v); err != nil {
		panic(s)
	}
	first := [2]int64{1, 1}
	if k > 0 {
		first[0] = ref.Pow10(k).Int64()
	} else {
		first[1] = ref.Pow10(-k).Int64()
	}
	p := func(n uint64) int64 {
		if n == 0 {
			return first[0]
		}
		return u
	}
	q := func(n uint64) int64 {
		if n == 0 {
			return first[1]
		}
		return v
	}
	switch name {
	case "geo":
		return series{[4]func(uint64) int64{konst(1), p, konst(1), q}}
	case "arith": // sum (n+1) r^n
		return series{[4]func(uint64) int64{func(n uint64) int64 { return int64(n) + 1 }, p, konst(1), q}}
	case "log": // sum r^n/(n+1)
		return series{[4]func(uint64) int64{konst(1), p, func(n uint64) int64 { return int64(n) + 1 }, q}}
	case "exp": // sum r^n/n!
		return series{[4]func(uint64) int64{konst(1), p, konst(1), func(n uint64) int64 {
			if n == 0 {
				return first[1]
			}
			return v * int64(n)
		}}}
	}
	panic(s)
}

// sum evaluates terms [lo, hi) exactly, term by term.
func (s series) sum(lo, hi uint64) *big.Rat {
	sum, prod := new(big.Rat), big.NewRat(1, 1)
	for n := lo; n < hi; n++ {
		prod.Mul(prod, big.NewRat(s.f[1](n), s.f[3](n)))
		t := big.NewRat(s.f[0](n), s.f[2](n))
		sum.Add(sum, t.Mul(t, prod))
	}
	return sum
}

// limit evaluates a convergent family until digs digits no longer change: the
// ratio of successive terms is at most r = |u/v| (log, exp) or tends to it.
func (s series) limit(digs int) *big.Rat {
	one := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digs+40)), nil)
	sum, prod := new(big.Int), new(big.Int).Set(one)
	for n := uint64(0); n < 100000; n++ {
		prod.Mul(prod, big.NewInt(s.f[1](n)))
		prod.Quo(prod, big.NewInt(s.f[3](n)))
		t := new(big.Int).Mul(prod, big.NewInt(s.f[0](n)))
		t.Quo(t, big.NewInt(s.f[2](n)))
		if prod.Sign() == 0 {
			break
		}
		sum.Add(sum, t)
	}
	return new(big.Rat).SetFrac(sum, one)
}

// splitFuncs provides the terms.  With reuse, every function returns its one
// buffer (valid only until its next invocation, as documented); touched
// reports whether a caller modified a term.
type splitFuncs struct {
	s       series
	off     uint64
	reuse   bool
	buf     [4]*decimal.Big
	val     [4]int64
	set     [4]bool
	calls   int
	touched string
}

func (f *splitFuncs) verify(k int) {
	if f.set[k] && f.touched == "" {
		if v, ok := f.buf[k].Int64(); !ok || v != f.val[k] || f.buf[k].Scale() != 0 {
			f.touched = fmt.Sprintf("the term %c was modified: %s, not %d", "apbq"[k], f.buf[k], f.val[k])
		}
	}
}

func (f *splitFuncs) get(k int) decimal.SplitFunc {
	kk := [4]int{0, 1, 2, 3}[k]
	// series order: a, p, b, q (the order of BinarySplit's arguments)
	fn := f.s.f[kk]
	return func(n uint64) *decimal.Big {
		f.verify(k)
		if f.calls++; f.calls > 2000000 {
			panic("the series does not terminate")
		}
		if !f.reuse || f.buf[k] == nil {
			f.buf[k] = new(decimal.Big)
		}
		f.val[k] = fn(n - f.off)
		f.buf[k].SetMantScale(f.val[k], 0)
		f.set[k] = true
		return f.buf[k]
	}
}

func checkSplit(c *Case) (msg string) {
	s := seriesOf(c.S)
	f := &splitFuncs{s: s, reuse: c.T == "reuse" || c.T == "top"}
	lo, hi := uint64(c.N), uint64(c.N+c.M)
	if c.T == "top" { // indices that end at the largest one
		f.off = math.MaxUint64 - hi
		if c.Dirty == 1 {
			f.off = 1<<63 - lo - uint64(c.M)/2
		}
	}
	z := c.C.newZ()
	if c.Dirty == 2 {
		z.SetBigMantScale(ref.Pow10(45), 3)
		z.Neg(z)
	}
	if c.M <= 0 {
		defer func() {
			if recover() == nil {
				msg = "no panic for an empty range"
			}
		}()
	}
	split := decimal.BinarySplit
	if c.T == "math" {
		split = func(z *decimal.Big, ctx decimal.Context, lo, hi uint64, a, p, b, q decimal.SplitFunc) *decimal.Big {
			return dmath.BinarySplit(z, ctx, lo, hi, dmath.SplitFunc(a), dmath.SplitFunc(p), dmath.SplitFunc(b), dmath.SplitFunc(q))
		}
	}
	r := split(z, c.C.D, f.off+lo, f.off+hi, f.get(0), f.get(1), f.get(2), f.get(3))
	if c.M <= 0 {
		return ""
	}
	if r != z {
		return "result: the returned pointer is not the receiver"
	}
	for k := range f.buf {
		f.verify(k)
	}
	if f.touched != "" {
		return f.touched
	}
	for n := lo; n < hi; n++ {
		if s.f[2](n) == 0 || s.f[3](n) == 0 {
			if z.IsFinite() {
				return fmt.Sprintf("zero divisor: got %s", z)
			}
			return ""
		}
	}
	want := s.sum(lo, hi)
	if !z.IsFinite() {
		return fmt.Sprintf("value: got %s want %s", z, want.FloatString(20))
	}
	// Every intermediate integer fits the large precisions, so only the
	// final division rounds there.
	ulps := big.NewRat(1, 2)
	if c.C.M.Prec < 1000 {
		ulps = big.NewRat(int64(12*c.M+12), 1)
	}
	return near(numOf(z), want, c.C.M.Prec, ulps)
}

// near: got has at most p digits and differs from want by at most so many
// units in the last place.
func near(got ref.Num, want *big.Rat, p int, ulps *big.Rat) string {
	if d := ref.Digits(got.C); d > p {
		return fmt.Sprintf("precision: %d digits", d)
	}
	g := new(big.Rat).SetInt(got.C)
	if got.Neg {
		g.Neg(g)
	}
	g.Mul(g, ratPow10(got.E))
	d := new(big.Rat).Sub(g, want)
	d.Abs(d)
	if want.Sign() == 0 {
		if d.Sign() != 0 {
			return fmt.Sprintf("value: got %s want 0", got)
		}
		return ""
	}
	lim := new(big.Rat).Mul(ulps, ratPow10(ratAdj(want)-p+1))
	if d.Cmp(lim) > 0 {
		return fmt.Sprintf("value: got %s want %s: off by %s ulp", got, want.FloatString(p+10), d.Quo(d, ratPow10(ratAdj(want)-p+1)).FloatString(2))
	}
	return ""
}

func ratPow10(e int) *big.Rat {
	if e < 0 {
		return new(big.Rat).SetFrac(big.NewInt(1), ref.Pow10(-e))
	}
	return new(big.Rat).SetInt(ref.Pow10(e))
}

// ratAdj is the exponent of the leading digit.
func ratAdj(r *big.Rat) int {
	n, d := new(big.Int).Abs(r.Num()), r.Denom()
	e := ref.Digits(n) - ref.Digits(d)
	if new(big.Rat).Abs(r).Cmp(ratPow10(e)) < 0 {
		e--
	}
	return e
}

var limitCache struct {
	key string
	r   *big.Rat
}

func checkSplitDyn(c *Case) string {
	s := seriesOf(c.S)
	f := &splitFuncs{s: s, reuse: c.T == "reuse"}
	dyn := decimal.BinarySplitDynamic
	if c.T == "math" {
		dyn = func(ctx decimal.Context, a, p, b, q decimal.SplitFunc) *decimal.Big {
			return dmath.BinarySplitDynamic(ctx, dmath.SplitFunc(a), dmath.SplitFunc(p), dmath.SplitFunc(b), dmath.SplitFunc(q))
		}
	}
	z := dyn(c.C.D, f.get(0), f.get(1), f.get(2), f.get(3))
	for k := range f.buf {
		f.verify(k)
	}
	if f.touched != "" {
		return f.touched
	}
	p := c.C.M.Prec
	k := fmt.Sprint(c.S, p)
	if limitCache.key != k {
		limitCache.key, limitCache.r = k, s.limit(p+15)
	}
	want := limitCache.r
	if !z.IsFinite() {
		return fmt.Sprintf("value: got %s want %s", z, want.FloatString(20))
	}
	return near(numOf(z), want, p, big.NewRat(int64(c.N), 1))
}

// Continued fractions ----------------------------------------------------------

// frac produces the terms of a fraction; n terms, then Next is false.
type frac struct {
	a, b    func(k int) *big.Rat
	n, k    int
	ta, tb  *decimal.Big
	nexts   int
	bad     string
	endless bool
}

func ratDec(r *big.Rat) *decimal.Big {
	e, n := 0, new(big.Rat).Set(r)
	for ; !n.IsInt(); e++ {
		n.Mul(n, big.NewRat(10, 1))
	}
	return new(decimal.Big).SetBigMantScale(n.Num(), e)
}

func (f *frac) verify() {
	if f.k > 0 && f.bad == "" && (f.ta.Cmp(ratDec(f.a(f.k-1))) != 0 || f.tb.Cmp(ratDec(f.b(f.k-1))) != 0) {
		f.bad = fmt.Sprintf("term %d was modified", f.k-1)
	}
}

func (f *frac) Next() bool {
	f.verify()
	f.nexts++
	if f.nexts > f.n {
		if f.n >= 5000 {
			f.endless = true
		}
		return false
	}
	return true
}

func (f *frac) Term() decimal.Term {
	if f.k++; f.k != f.nexts && f.bad == "" {
		f.bad = fmt.Sprintf("Term called %d times after %d calls of Next", f.k, f.nexts)
	}
	f.ta, f.tb = ratDec(f.a(f.k-1)), ratDec(f.b(f.k-1))
	return decimal.Term{A: f.ta, B: f.tb}
}

// with a context of its own
type fracCtx struct {
	*frac
	ctx decimal.Context
}

func (f fracCtx) Context() decimal.Context { return f.ctx }

// with storage of its own, as large as the context says
type fracStore struct {
	fracCtx
	scale int
}

// used is storage that has been used before.
func used() *decimal.Big { return decimal.New(-17, 1) }

func (f fracStore) Wallis() (a, a1, b, b1, p, eps *decimal.Big) {
	return used(), used(), used(), used(), used(), decimal.New(1, f.scale)
}

func (f fracStore) Lentz() (a, b, c, d, eps *decimal.Big) {
	return used(), used(), used(), used(), decimal.New(1, f.scale)
}

// fracOf decodes a family.
func fracOf(s string) *frac {
	v := strings.Split(s, ",")
	num := func(i int) *big.Rat {
		r, ok := new(big.Rat).SetString(v[i])
		if !ok {
			panic(s)
		}
		return r
	}
	pick := func(xs []*big.Rat) func(int) *big.Rat {
		return func(k int) *big.Rat {
			if k < len(xs) {
				return xs[k]
			}
			return xs[len(xs)-1]
		}
	}
	switch v[0] {
	case "const": // b0, a, b: b0 + a/(b + a/(b + ...
		b0, a, b := num(1), num(2), num(3)
		return &frac{a: pick([]*big.Rat{a}), b: pick([]*big.Rat{b0, b})}
	case "list": // b0, a1, b1, a2, b2, ...
		var as, bs []*big.Rat
		as = append(as, big.NewRat(1, 1))
		for i := 1; i < len(v); i++ {
			if i&1 == 1 {
				bs = append(bs, num(i))
			} else {
				as = append(as, num(i))
			}
		}
		return &frac{a: pick(as), b: pick(bs)}
	case "atan": // x/(1 + x^2/(3 + 4x^2/(5 + ...
		x := num(1)
		x2 := new(big.Rat).Mul(x, x)
		return &frac{a: func(k int) *big.Rat {
			if k <= 1 {
				return x
			}
			return new(big.Rat).Mul(x2, big.NewRat(int64(k-1)*int64(k-1), 1))
		}, b: func(k int) *big.Rat {
			if k == 0 {
				return new(big.Rat)
			}
			return big.NewRat(int64(2*k-1), 1)
		}}
	case "tan": // 1 - x^2/(3 - x^2/(5 - ...
		x := num(1)
		x2 := new(big.Rat).Mul(x, x)
		x2.Neg(x2)
		return &frac{a: func(int) *big.Rat { return x2 }, b: func(k int) *big.Rat { return big.NewRat(int64(2*k+1), 1) }}
	}
	panic(s)
}

// value evaluates the first n terms exactly, from the last one.
func (f *frac) value(n int) *big.Rat {
	r := new(big.Rat).Set(f.b(n - 1))
	for k := n - 1; k > 0; k-- {
		if r.Sign() == 0 {
			return nil
		}
		r.Quo(f.a(k), r)
		r.Add(r, f.b(k-1))
	}
	return r
}

// limit evaluates enough terms for digs digits with floating point.
func (f *frac) limit(n int, digs int) *big.Rat {
	prec := uint(float64(digs)*3.33) + 128
	fl := func(r *big.Rat) *big.Float { return new(big.Float).SetPrec(prec).SetRat(r) }
	r := fl(f.b(n - 1))
	for k := n - 1; k > 0; k-- {
		if r.Sign() == 0 {
			return nil
		}
		r.Quo(fl(f.a(k)), r)
		r.Add(r, fl(f.b(k-1)))
	}
	v, _ := r.Rat(nil)
	return v
}

var fracCache struct {
	key string
	r   *big.Rat
}

func checkFrac(c *Case) string {
	f := fracOf(c.S)
	f.n = c.N
	p := c.C.M.Prec
	z := c.C.newZ()
	ctx := c.C.D
	var g decimal.Generator = f
	switch c.T {
	case "ctx": // the receiver's and the caller's contexts do not matter
		g = fracCtx{f, c.C.D}
		z.Context = decimal.Context{Precision: 3}
		ctx = z.Context
	case "recv": // the method's context counts, not the receiver's
		z.Context = decimal.Context{Precision: p + 11}
	case "store":
		// as much storage as the default has
		w := c.C.D
		w.Precision = p + 5
		g = fracStore{fracCtx{f, w}, p + 3}
	}
	var r *decimal.Big
	switch c.Op {
	case "Wallis":
		r = ctx.Wallis(z, g)
	case "Lentz":
		r = ctx.Lentz(z, g)
	case "math.Wallis":
		r = dmath.Wallis(z, g)
	case "math.Lentz":
		r = dmath.Lentz(z, g)
	}
	if r != z {
		return "result: the returned pointer is not the receiver"
	}
	if f.bad != "" {
		return f.bad
	}
	if f.endless {
		return "termination: did not converge within 5000 terms, now at " + z.String()
	}
	k := c.S + "/" + strconv.Itoa(c.N) + "/" + strconv.Itoa(p)
	if fracCache.key != k {
		fracCache.key = k
		if c.N <= 12 {
			fracCache.r = f.value(c.N)
		} else {
			fracCache.r = f.limit(c.N, p+20)
		}
	}
	want := fracCache.r
	if want == nil {
		return ""
	}
	if !z.IsFinite() {
		return fmt.Sprintf("value: got %s want %s", z, want.FloatString(20))
	}
	if bad := z.Context.Conditions & (decimal.DivisionByZero | decimal.DivisionUndefined | decimal.InvalidOperation | decimal.Overflow | decimal.Underflow); bad != 0 {
		return fmt.Sprintf("conditions: %s is finite and has the condition %s", z, bad)
	}
	if c.T == "store" {
		z = new(decimal.Big).Copy(z) // the caller rounds
		c.C.D.Round(z)
	}
	got := numOf(z)
	if want.Sign() == 0 && got.C.Sign() != 0 && (got.Adj() < -50 || strings.HasSuffix(c.Op, "Lentz") && strings.HasPrefix(c.S, "list") && got.Adj() < -p-1) {
		return "" // Lentz's method multiplies and replaces zeros by tiny numbers
	}
	return near(got, want, p, big.NewRat(11, 10))
}

func exploreC17(w *Worker) {
	rs := []ref.Round{ref.HalfEven, ref.Down, ref.Up}
	wide := cxs([]int{2500}, 0, 0, []ref.Round{ref.HalfEven})[0]
	// (a) exact evaluation of every range shape
	max := 40
	if w.Thorough() {
		max = 200
	}
	for n := 1; n <= max; n++ {
		if !w.Block() {
			continue
		}
		for lo := 0; lo <= 12; lo++ {
			for _, fam := range []string{"prime", "signed"} {
				for _, t := range []string{"", "reuse", "math", "top"} {
					w.State()
					w.Do(&Case{Op: "Split", C: wide, S: fam, T: t, N: lo, M: n, Dirty: 2 * (n & 1)})
					if t == "top" {
						w.Do(&Case{Op: "Split", C: wide, S: fam, T: t, N: lo, M: n, Dirty: 1})
					}
				}
			}
		}
	}
	if w.Block() {
		for _, n := range []int{0, -1, -5} {
			w.Do(&Case{Op: "Split", C: wide, S: "prime", N: 7, M: n})
		}
	}
	// every assignment of few values to the terms of the shortest ranges
	nv := map[int]int{1: 6, 2: 4, 3: 2}
	if w.Thorough() {
		nv = map[int]int{1: 6, 2: 6, 3: 3, 4: 2}
	}
	for n := 1; n <= 4; n++ {
		base := nv[n]
		if base == 0 {
			continue
		}
		total := 1
		for i := 0; i < 4*n; i++ {
			total *= base
		}
		for i := 0; i < total; i++ {
			if i%4096 == 0 {
				w.skip = !w.Block()
			}
			if w.skip {
				continue
			}
			d := make([]byte, 4*n)
			for k, v := 0, i; k < len(d); k++ {
				d[k] = byte('0' + v%base)
				v /= base
			}
			w.State()
			w.Do(&Case{Op: "Split", C: wide, S: "digits:" + string(d), T: "reuse", M: n})
		}
	}
	w.skip = false
	// (b) rounding at ordinary precisions
	for _, c := range cxs([]int{5, 9, 16, 34, 60}, 0, 0, rs) {
		if !w.Block() {
			continue
		}
		for n := 1; n <= 24; n++ {
			for lo := 0; lo < 3; lo++ {
				w.State()
				w.Do(&Case{Op: "Split", C: c, S: "prime", T: "reuse", N: lo, M: n})
			}
		}
	}
	// (c) convergent series
	ps := []int{0, 5, 9, 16, 20, 34, 50, 100}
	if w.Thorough() {
		ps = append(append(rng(4, 60), 0), 75, 100, 150, 200, 300)
	}
	var fams []string
	for _, f := range []string{"geo", "arith", "log", "exp"} {
		for _, r := range []string{"1/2", "-1/2", "1/3", "-1/3", "2/3", "3/4", "1/10", "-1/10", "9/10", "1/7", "-3/7", "1/100", "99/1000", "1/1000000", "1/1", "-1/1", "3/1", "10/1"} {
			if f != "exp" && strings.HasSuffix(r, "/1") || f == "arith" && r == "-1/2" {
				continue
			}
			fams = append(fams, f+":"+r)
			for _, k := range []string{"-18", "-7", "-2", "-1", "1", "12"} {
				fams = append(fams, f+":"+r+"@"+k)
			}
		}
	}
	for _, fam := range fams {
		for _, c := range cxs(ps, 0, 0, []ref.Round{ref.HalfEven}) {
			if !w.Block() {
				continue
			}
			for _, t := range []string{"", "reuse", "math"} {
				w.State()
				w.Do(&Case{Op: "SplitDyn", C: c, S: fam, T: t, N: 100})
			}
		}
	}
	// (d) continued fractions
	fp := []int{1, 2, 3, 5, 9, 16, 19, 34, 50, 70}
	frs := []ref.Round{ref.HalfEven, ref.Down}
	if w.Thorough() {
		fp = append(rng(1, 40), 50, 70, 100)
		frs = allRounds
	}
	cx := cxs(fp, 0, 0, frs)
	fracs := func(s string, ns []int, wallis bool) {
		if !w.Block() {
			return
		}
		i := strings.Index(s, "e-")
		far := i >= 0 && i+3 < len(s) && s[i+3] != ','
		for _, n := range ns {
			for _, c := range cx {
				for _, t := range []string{"", "ctx", "recv", "store"} {
					w.State()
					// the caller's threshold is absolute there
					if wallis && !(t == "store" && far) {
						w.Do(&Case{Op: "Wallis", C: c, S: s, T: t, N: n})
					}
					w.Do(&Case{Op: "Lentz", C: c, S: s, T: t, N: n})
				}
				if wallis {
					w.Do(&Case{Op: "math.Wallis", C: c, S: s, N: n})
				}
				w.Do(&Case{Op: "math.Lentz", C: c, S: s, N: n})
			}
		}
	}
	as, bs := rng(1, 12), rng(1, 16)
	for _, a := range as {
		for _, b := range bs {
			for _, e := range []string{"", "e-1", "e1"} {
				for _, b0 := range []string{"0", strconv.Itoa(b) + e, "7"} {
					if b0 == "0" && (a+b)%3 != 0 && !w.Thorough() {
						continue
					}
					ns := []int{5000}
					if e == "" {
						ns = []int{1, 2, 3, 4, 5, 10, 5000}
					}
					if b0 == "0" {
						ns = ns[len(ns)-1:]
					}
					fracs(fmt.Sprintf("const,%s,%d%s,%d%s", b0, a, e, b, e), ns, true)
				}
			}
		}
	}
	// far from one: the first numerator scales the value, all of them with
	// the denominators too
	for _, k := range []int{-90, -75, -60, -50, -30, -12, 12, 30, 60, 90} {
		for _, ab := range [][2]int{{1, 1}, {2, 3}, {7, 5}, {3, 16}} {
			for _, b0 := range []string{"0", fmt.Sprintf("4e%d", k)} {
				fracs(fmt.Sprintf("const,%s,%de%d,%de%d", b0, ab[0], 2*k, ab[1], k), []int{2, 3, 5000}, true)
			}
			fracs(fmt.Sprintf("list,0,%de%d,%d,%d,%d", ab[0], k, ab[1], ab[0], ab[1]), []int{2, 3, 5000}, true)
		}
	}
	for _, x := range []string{"1", "0.5", "0.1", "2", "3", "0.001", "10", "1e-20", "3e-45", "1e-61", "7e-80", "1e-99"} {
		fracs("atan,"+x, []int{5000}, true)
		fracs("tan,"+x, []int{5000}, true)
	}
	// short fractions with terms of both signs, also with vanishing
	// denominators on the way (Lentz's method steps over them)
	vals := []int{-2, -1, 1, 2, 3}
	for _, b0 := range []int{-1, 0, 2} {
		for _, a1 := range vals {
			for _, b1 := range vals {
				for _, a2 := range vals {
					for _, b2 := range vals {
						fracs(fmt.Sprintf("list,%d,%d,%d,%d,%d", b0, a1, b1, a2, b2), []int{2, 3}, true)
					}
				}
			}
		}
	}
	// the same with denominators that are zero and one level more, also in more
	// digits than the usual stand-in for zero
	cx = cxs([]int{3, 16, 90}, 0, 0, []ref.Round{ref.HalfEven})
	if w.Thorough() {
		cx = cxs([]int{1, 3, 9, 16, 34, 90, 150}, 0, 0, frs)
	}
	zs := []int{-1, 0, 1, 3}
	for _, b0 := range []int{0, 2} {
		for _, b1 := range zs {
			for _, b2 := range zs {
				for _, b3 := range zs {
					for i := 0; i < 8; i++ {
						a := func(k uint) int { return 1 - 3*(i>>k&1) }
						fracs(fmt.Sprintf("list,%d,%d,%d,%d,%d,%d,%d", b0, a(0), b1, a(1), b2, a(2), b3), []int{2, 3, 4}, true)
					}
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "C17",
		Check: func(c *Case) string {
			switch c.Op {
			case "Split":
				return checkSplit(c)
			case "SplitDyn":
				return checkSplitDyn(c)
			}
			return checkFrac(c)
		},
		Explore: exploreC17,
		Bounds: func(tier string) string {
			return "BinarySplit over every range of 1..40 (thorough 200) terms from 0..12, at the bottom, the middle and the top of the index range, with distinct primes as terms and all signs; every assignment of 6, 4 and 2 values to the terms of ranges of one, two and three terms; three rounding modes at 5 precisions; BinarySplitDynamic for 4 kinds of convergent series x 14-18 ratios x 7 scales from 10^-18 to 10^12 x 8 precisions (thorough 64) including zero; Wallis and Lentz for 12 x 16 constant fractions x 3 magnitudes x 3 leading terms x finite lengths and without end, arc tangent and tangent fractions of 12 arguments from 1e-99 to 10, fractions whose terms lie 12 to 90 orders of magnitude from one, and all short fractions over five signed values x 10 precisions (thorough 43) x 2 (7) rounding modes x 4 ways to provide contexts and storage"
		},
	})
}
