package main

import (
	"fmt"
	"math/big"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// special is what an elementary function must yield where it is not a plain
// real number: NaN with conditions, an exactly known datum, or k/4 of pi.
type special struct {
	nan   bool
	cond  ref.Cond
	num   *ref.Num // exact datum; any representation of the value
	sign  bool     // the sign of a zero result is prescribed
	pi4   int      // multiple of pi/4
	flags bool     // conditions are prescribed for a non-NaN result
}

func spNaN() *special { return &special{nan: true, cond: ref.InvalidOperation} }
func spNum(n ref.Num, sign bool) *special {
	return &special{num: &n, sign: sign, flags: true}
}
func spPi(k int) *special { return &special{pi4: k, cond: ref.Inexact | ref.Rounded, flags: true} }

// fnSpecial is the documented table of special cases; nil where the function
// is an ordinary real number (decided by C15).
func fnSpecial(name string, x, y ref.Num) *special {
	f := fns[name]
	args := []ref.Num{x, y}[:f.arity]
	for _, a := range args {
		if a.K == ref.SNaN {
			return &special{nan: true, cond: ref.InvalidOperation, sign: a.Neg}
		}
	}
	for _, a := range args {
		if a.K == ref.QNaN {
			return &special{nan: true, sign: a.Neg}
		}
	}
	zero, one, inf := ref.FinInt(false, 0, 0), ref.FinInt(false, 1, 0), ref.Infinity(false)
	neg := ref.Negate
	sgn := func(n ref.Num, s bool) ref.Num { n.Neg = s; return n }
	sign := func(n ref.Num) int {
		switch {
		case n.IsZero():
			return 0
		case n.Neg:
			return -1
		}
		return 1
	}
	abs1 := func(n ref.Num) int { return ref.Cmp(ref.Abs(n), one) }
	switch name {
	case "Exp":
		switch {
		case x.K == ref.Inf && x.Neg:
			return spNum(zero, true)
		case x.K == ref.Inf:
			return spNum(inf, true)
		case x.IsZero():
			return spNum(one, true)
		}
	case "Log", "Log10":
		switch {
		case x.IsZero():
			return spNum(neg(inf), true)
		case x.Neg:
			return spNaN()
		case x.K == ref.Inf:
			return spNum(inf, true)
		case ref.Cmp(x, one) == 0:
			return spNum(zero, true)
		}
	case "Sin", "Tan":
		if x.K == ref.Inf {
			return spNaN()
		}
		if x.IsZero() {
			return spNum(zero, false)
		}
	case "Cos":
		if x.K == ref.Inf {
			return spNaN()
		}
		if x.IsZero() {
			return &special{num: &one}
		}
	case "Asin":
		if abs1(x) > 0 {
			return spNaN()
		}
		if abs1(x) == 0 {
			return spPi(2 * sign(x))
		}
		if x.IsZero() {
			return spNum(zero, false)
		}
	case "Acos":
		if abs1(x) > 0 {
			return spNaN()
		}
		if abs1(x) == 0 && x.Neg {
			return spPi(4)
		}
		if abs1(x) == 0 {
			return spNum(zero, true)
		}
		if x.IsZero() {
			return spPi(2)
		}
	case "Atan":
		if x.K == ref.Inf {
			return spPi(2 * sign(x))
		}
		if x.IsZero() {
			return spNum(zero, false)
		}
		if abs1(x) == 0 {
			return spPi(sign(x))
		}
	case "Atan2":
		y, x := x, y // the first argument is the ordinate
		s := 1
		if y.Neg {
			s = -1
		}
		switch {
		case y.IsZero() && !x.Neg:
			return spNum(sgn(zero, y.Neg), true)
		case y.IsZero():
			return spPi(4 * s)
		case x.IsZero():
			return spPi(2 * s)
		case x.K == ref.Inf && y.K == ref.Inf && !x.Neg:
			return spPi(s)
		case x.K == ref.Inf && y.K == ref.Inf:
			return spPi(3 * s)
		case x.K == ref.Inf && !x.Neg:
			return spNum(zero, false)
		case x.K == ref.Inf:
			return spPi(4 * s)
		case y.K == ref.Inf:
			return spPi(2 * s)
		}
	case "Hypot":
		if x.K == ref.Inf || y.K == ref.Inf {
			return spNum(inf, true)
		}
		if x.IsZero() && y.IsZero() {
			return spNum(zero, true)
		}
	case "Pow":
		yint, odd := false, false
		if y.K == ref.Fin {
			var n ref.Num
			n, yint = isIntN(y)
			odd = yint && n.E == 0 && n.C.Bit(0) == 1
		}
		s := x.Neg && odd
		switch {
		case y.IsZero() && x.IsZero():
			return spNaN()
		case y.IsZero():
			return spNum(one, true)
		case sign(x) < 0 && !yint:
			return spNaN()
		case x.IsZero() && y.Neg, x.K == ref.Inf && !y.Neg:
			return spNum(ref.Infinity(s), true)
		case x.IsZero(), x.K == ref.Inf:
			return spNum(sgn(zero, s), true)
		case abs1(x) == 0:
			return &special{num: &ref.Num{K: ref.Fin, Neg: s, C: one.C}}
		case y.K == ref.Inf:
			if (abs1(x) > 0) != y.Neg {
				return spNum(inf, true)
			}
			return spNum(zero, true)
		}
	}
	return nil
}

// invalidCx are the contexts that are not valid, each in one field.
var invalidCx = []struct {
	name string
	set  func(*decimal.Context)
}{
	{"precision -1", func(c *decimal.Context) { c.Precision = -1 }},
	{"precision min", func(c *decimal.Context) { c.Precision = -1 << 62 }},
	{"precision unlimited+1", func(c *decimal.Context) { c.Precision = decimal.UnlimitedPrecision + 1 }},
	{"rounding mode 7", func(c *decimal.Context) { c.RoundingMode = 7 }},
	{"rounding mode 255", func(c *decimal.Context) { c.RoundingMode = 255 }},
	{"operating mode 2", func(c *decimal.Context) { c.OperatingMode = 2 }},
	{"max scale", func(c *decimal.Context) { c.MaxScale = decimal.MaxScale + 1 }},
	{"min scale", func(c *decimal.Context) { c.MinScale = decimal.MinScale - 1 }},
}

func goMode(c *Case) bool { return c.C.D.OperatingMode == decimal.Go }

// run07 executes the operation in the form M and reports a panic.
func run07(c *Case, ctx decimal.Context) (z, r *decimal.Big, p interface{}) {
	d := defs[c.Op]
	cc := *c
	cx := *c.C
	cx.D = ctx
	cc.C = &cx
	z = dirtyZ(c.Dirty)
	if d.inPlace {
		z = c.X.fresh()
	}
	z.Context = ctx
	if c.M == 0 {
		z.Context = decimal.Context{OperatingMode: ctx.OperatingMode}
	}
	z.Context.Conditions = 0
	if d.two {
		r = new(decimal.Big)
		r.Context = z.Context
	}
	f := d.ctx
	if c.M > 0 {
		f = d.recv[c.M-1]
	}
	cl := func(o *Opd) *decimal.Big {
		if o == nil {
			return nil
		}
		return o.fresh()
	}
	x, y, u := cl(c.X), cl(c.Y), cl(c.U)
	if d.inPlace {
		x = z
	}
	defer func() { p = recover() }()
	f(&cc, z, r, x, y, u)
	return
}

// nanOutcome checks that z (and r) are the NaN the operation must yield: quiet,
// with the conditions and sign given; in the Go mode the panic carries ErrNaN.
func nanOutcome(c *Case, z *decimal.Big, p interface{}, cond ref.Cond, neg, checkSign bool) string {
	if goMode(c) {
		if p == nil {
			return fmt.Sprintf("panic: no panic in the Go mode, result %s", show(z))
		}
		if _, ok := p.(decimal.ErrNaN); !ok {
			return fmt.Sprintf("panic: %v (%T) instead of ErrNaN", p, p)
		}
		// which of several NaNs was met first is not observable any more
		if n := numOf(z); !n.IsNaN() {
			return fmt.Sprintf("nan: the receiver holds %s after the panic", n)
		}
		return ""
	} else if p != nil {
		return fmt.Sprintf("panic: %v", p)
	}
	n := numOf(z)
	if n.K != ref.QNaN {
		return fmt.Sprintf("nan: got %s want a quiet NaN", n)
	}
	if checkSign && n.Neg != neg {
		return fmt.Sprintf("nan sign: got %s", n)
	}
	if f := condOf(z.Context.Conditions); f != cond {
		return fmt.Sprintf("nan conditions: got %s want %s", f, cond)
	}
	return ""
}

// checkHelpers decides the exported NaN check and the constructor with a
// precision. CheckNaNs: N is 1 when y is absent, Alias what the receiver is.
func checkHelpers(c *Case) (msg string) {
	if c.Op == "WithPrecision" {
		z := decimal.WithPrecision(c.N)
		if c.N < 0 || c.N > decimal.UnlimitedPrecision {
			if n := numOf(z); n.K != ref.QNaN || condOf(z.Context.Conditions) != ref.InvalidContext {
				return fmt.Sprintf("special: got %s with %s want NaN with InvalidContext", n, condOf(z.Context.Conditions))
			}
			return ""
		}
		p := c.N
		if p == 0 {
			p = decimal.DefaultPrecision
		}
		if n := numOf(z); !ref.Same(n, ref.FinInt(false, 0, 0)) || z.Context != (decimal.Context{Precision: p}) {
			return fmt.Sprintf("special: got %s in %+v", n, z.Context)
		}
		return ""
	}
	if c.Op == "SetRat" || c.Op == "SetString" {
		ctx := c.C.D
		for _, iv := range invalidCx {
			if iv.name == c.S {
				iv.set(&ctx)
			}
		}
		z := dirtyZ(c.Dirty)
		z.Context = decimal.Context{OperatingMode: ctx.OperatingMode}
		var p interface{}
		var r *decimal.Big
		ok := false
		func() {
			defer func() { p = recover() }()
			if c.Op == "SetRat" {
				r, ok = ctx.SetRat(z, big.NewRat(int64(c.N), 3)), true
			} else if r, ok = ctx.SetString(z, fmt.Sprint(c.N)); ok {
				r = z
			}
		}()
		if m := nanOutcome(c, z, p, ref.InvalidContext, false, true); m != "" {
			return m
		}
		if p == nil && c.Op == "SetRat" && r != z || p == nil && c.Op == "SetString" && (ok || r != nil) {
			return fmt.Sprintf("special: returned %v, %v", r, ok)
		}
		return ""
	}
	x := c.X.fresh()
	var y *decimal.Big
	nums := []ref.Num{c.X.N}
	if c.N == 0 {
		y = c.Y.fresh()
		nums = append(nums, c.Y.N)
	}
	z := dirtyZ(c.Dirty)
	switch c.Alias {
	case "x":
		z = x
	case "y":
		z = y
	}
	z.Context = c.C.D
	for _, iv := range invalidCx {
		if iv.name == c.S {
			iv.set(&z.Context)
		}
	}
	before := show(z)
	var pick *ref.Num
	var cond ref.Cond
	for _, k := range []ref.Kind{ref.SNaN, ref.QNaN} {
		for i := range nums {
			if pick == nil && nums[i].K == k {
				pick = &nums[i]
				if k == ref.SNaN {
					cond = ref.InvalidOperation
				}
			}
		}
	}
	if c.S != "" {
		pick, cond = &ref.Num{K: ref.QNaN}, ref.InvalidContext
	}
	got, panicked := false, interface{}(nil)
	func() {
		defer func() { panicked = recover() }()
		got = z.CheckNaNs(x, y)
	}()
	if pick == nil {
		if panicked != nil || got || show(z) != before || condOf(z.Context.Conditions) != 0 {
			return fmt.Sprintf("special: %v, %v, receiver %s, was %s", got, panicked, show(z), before)
		}
		return ""
	}
	if panicked == nil && !got {
		return "nan: not reported"
	}
	if z.Context.OperatingMode != c.C.D.OperatingMode { // an invalid one
		if n := numOf(z); panicked != nil || n.K != ref.QNaN || condOf(z.Context.Conditions) != cond {
			return fmt.Sprintf("nan: got %s, %v", n, panicked)
		}
		return ""
	}
	return nanOutcome(c, z, panicked, cond, pick.Neg, true)
}

func checkC07(c *Case) string {
	switch c.Op {
	case "CheckNaNs", "WithPrecision", "SetRat", "SetString":
		return checkHelpers(c)
	}
	d := defs[c.Op]
	if c.S != "" { // an invalid context
		for _, iv := range invalidCx {
			if iv.name != c.S {
				continue
			}
			ctx := c.C.D
			iv.set(&ctx)
			z, r, p := run07(c, ctx)
			if s := nanOutcome(c, z, p, ref.InvalidContext, false, true); s != "" {
				return s
			}
			if r != nil && p == nil {
				return nanOutcome(c, r, p, ref.InvalidContext, false, true)
			}
			return ""
		}
		return "unknown invalid context"
	}
	z, r, p := run07(c, c.C.D)
	if d.slow {
		sp := fnSpecial(c.Op, nopd(c.X), nopd(c.Y))
		if sp == nil {
			return ""
		}
		if sp.nan {
			return nanOutcome(c, z, p, sp.cond, sp.sign, true)
		}
		if p != nil {
			return fmt.Sprintf("panic: %v", p)
		}
		n := numOf(z)
		if s := canonical(z); s != "" {
			return s
		}
		if sp.num != nil {
			if n.IsNaN() || ref.Cmp(n, *sp.num) != 0 || (sp.sign || !n.IsZero()) && n.Neg != sp.num.Neg {
				return fmt.Sprintf("special: got %s want %s", n, sp.num)
			}
		} else {
			if n.K != ref.Fin {
				return fmt.Sprintf("special: got %s want %d/4 pi", n, sp.pi4)
			}
			pr := c.C.M.Prec
			m := new(big.Int).Mul(ref.PiFix(pr+30), big.NewInt(int64(sp.pi4)))
			rl := ref.Real{M: m, W: pr + 30, Err: 1000}
			four := rl
			four.M = new(big.Int).Quo(m, big.NewInt(4))
			if ref.Ulps(n, four, pr, nil).Cmp(big.NewRat(11, 10)) > 0 {
				return fmt.Sprintf("special: got %s want %d/4 pi", n, sp.pi4)
			}
			if d := ref.Digits(n.C); d > pr {
				return fmt.Sprintf("precision: %d digits", d)
			}
		}
		f := condOf(z.Context.Conditions)
		if n.IsZero() {
			f &^= ref.Clamped | ref.Rounded // the exponent of zero is not prescribed
		}
		if sp.flags && f != sp.cond {
			return fmt.Sprintf("conditions: got %s want %s (result %s)", f, sp.cond, n)
		}
		return ""
	}
	op := ops[c.Op]
	if op == nil {
		return ""
	}
	want, wf := op.model(c)
	if want.IsNaN() {
		// a propagated NaN keeps its sign, a generated one has none
		if c.Op == "Set" || c.Op == "Round" {
			if p != nil {
				return fmt.Sprintf("panic: %v", p)
			}
			if n := numOf(z); n.K != want.K || n.Neg != want.Neg {
				return fmt.Sprintf("nan: got %s want %s", n, want)
			}
			return ""
		}
		return nanOutcome(c, z, p, wf, want.Neg, true)
	}
	_ = r
	if p != nil {
		return fmt.Sprintf("panic: %v", p)
	}
	n := numOf(z)
	if !ref.Same(n, want) {
		return fmt.Sprintf("special: got %s want %s", n, want)
	}
	if s := canonical(z); s != "" {
		return s
	}
	if f := condOf(z.Context.Conditions); f != wf {
		return fmt.Sprintf("conditions: got %s want %s (result %s)", f, wf, n)
	}
	return ""
}

func exploreC07(w *Worker) {
	th := w.Thorough()
	// operands: every class, around the values the special cases name
	coefs := []string{"0", "1", "2", "5", "10", "100", "18446744073709551615", "18446744073709551616", pow10s(25)}
	xs := opds(coefs, []int{-25, -2, -1, 0, 1, 3}, true, false)
	for _, ng := range []bool{false, true} {
		for _, pl := range []uint64{0, 7, 1<<64 - 1} {
			xs = append(xs, newOpd(ref.Num{K: ref.QNaN, Neg: ng}, pl), newOpd(ref.Num{K: ref.SNaN, Neg: ng}, pl))
		}
		xs = append(xs, newOpd(ref.Num{K: ref.Inf, Neg: ng}, 0))
	}
	isSp := func(os ...*Opd) bool {
		for _, o := range os {
			if o != nil && (o.N.K != ref.Fin || o.N.IsZero()) {
				return true
			}
		}
		return false
	}
	base := cxs([]int{0, 1, 5, 25}, 0, 0, []ref.Round{ref.HalfEven, ref.Floor})
	if th {
		base = cxs([]int{0, 1, 2, 5, 9, 19, 25, 60}, 0, 0, allRounds)
	}
	base = append(base, mkCx(5, 20, -20, ref.HalfEven), mkCx(7, 30, -30, ref.Down))
	var all []*Cx
	for _, c := range base {
		all = append(all, c)
		all = append(all, c.goMode())
	}
	do := func(cx *Cx, name string, x, y, u *Opd, n int, inv string) {
		d := defs[name]
		forms := len(d.recv)
		for f := 0; f <= forms; f++ {
			for _, dirty := range []int{0, 3} {
				w.Do(&Case{Op: name, C: cx, X: x, Y: y, U: u, N: n, M: f, S: inv, Dirty: dirty})
			}
		}
	}
	us := opds([]string{"0", "1", "18446744073709551616"}, []int{-2, 3}, true, true)
	for _, n := range []int{-1 << 63, -1 << 62, -2, -1, 0, 1, 2, 15, 16, 17, 1 << 31, 1 << 32, decimal.MaxPrecision - 1, decimal.MaxPrecision, decimal.UnlimitedPrecision, decimal.UnlimitedPrecision + 1, 1 << 62, 1<<63 - 1} {
		if w.Block() {
			w.State()
			w.Do(&Case{Op: "WithPrecision", N: n})
		}
	}
	for _, cx := range all {
		if !w.Block() {
			continue
		}
		for _, x := range us {
			w.State()
			for _, a := range []string{"", "x"} {
				w.Do(&Case{Op: "CheckNaNs", C: cx, X: x, N: 1, Alias: a, Dirty: 3})
			}
			for _, y := range us {
				for _, a := range []string{"", "x", "y"} {
					for d := 0; d < 4; d++ {
						w.Do(&Case{Op: "CheckNaNs", C: cx, X: x, Y: y, Alias: a, Dirty: d})
					}
				}
				for _, iv := range invalidCx {
					w.Do(&Case{Op: "CheckNaNs", C: cx, X: x, Y: y, S: iv.name})
				}
			}
		}
	}
	for _, name := range defNames {
		d := defs[name]
		if !d.slow && ops[name] == nil {
			continue
		}
		for _, cx := range all {
			ns := []int{0}
			if name == "Quantize" {
				ns = []int{-3, 0, 5}
			}
			if cx.Emax != 0 && (name == "RoundToInt" || name == "Floor" || name == "Ceil") {
				continue
			}
			for i, x := range xs {
				if i%6 == 0 {
					w.skip = !w.Block()
				}
				if w.skip {
					continue
				}
				for _, n := range ns {
					switch d.arity {
					case 1:
						w.State()
						if d.slow && cx.Emax != 0 && !isSp(x) {
							continue
						}
						do(cx, name, x, nil, nil, n, "")
					case 2:
						for _, y := range xs {
							if !d.slow && !isSp(x, y) {
								continue
							}
							if d.slow && fnSpecial(name, x.N, y.N) == nil {
								continue
							}
							w.State()
							do(cx, name, x, y, nil, n, "")
						}
					case 3:
						if th || i%3 == 0 || isSp(x) {
							for _, y := range us {
								for _, u := range us {
									if isSp(x, y, u) {
										w.State()
										do(cx, name, x, y, u, n, "")
									}
								}
							}
						}
					}
				}
			}
		}
	}
	// invalid contexts: every operation, every operand class
	iv := []*Cx{mkCx(0, 0, 0, ref.HalfEven), mkCx(0, 0, 0, ref.HalfEven).goMode()}
	is := opds([]string{"0", "1", "18446744073709551616"}, []int{-2, 0}, true, true)
	for _, inv := range invalidCx {
		for _, cx := range iv {
			if !w.Block() || inv.name == "operating mode 2" && cx.Go {
				continue
			}
			for n := -7; n <= 7; n++ {
				for d := 0; d < 4; d++ {
					w.State()
					w.Do(&Case{Op: "SetRat", C: cx, N: n, Dirty: d, S: inv.name})
					w.Do(&Case{Op: "SetString", C: cx, N: n, Dirty: d, S: inv.name})
				}
			}
		}
	}
	for _, name := range defNames {
		d := defs[name]
		if !d.slow && ops[name] == nil && name != "QuoRem" {
			continue
		}
		for _, inv := range invalidCx {
			if !w.Block() {
				continue
			}
			for _, cx := range iv {
				if inv.name == "operating mode 2" && cx.Go {
					continue
				}
				switch d.arity {
				case 0:
					w.State()
					do(cx, name, nil, nil, nil, 0, inv.name)
				case 1:
					for _, x := range is {
						w.State()
						do(cx, name, x, nil, nil, 0, inv.name)
					}
				default:
					for _, x := range is {
						for _, y := range is {
							w.State()
							do(cx, name, x, y, us[0], 0, inv.name)
						}
					}
				}
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C07", Check: checkC07, Explore: exploreC07, Bounds: func(tier string) string {
		return "every arithmetic operation and elementary function in every public form, both operating modes, over 122 operands (all classes: signed zeros, infinities, quiet/signalling NaNs with payloads, values the special cases name) in all tuples that contain a special value or hit a special case; precisions {16,1,5,25} x {half-even, floor} (thorough: 8 precisions x 7 modes) and two bounded exponent ranges; every operation x 8 invalid contexts x operand classes"
	}})
}
