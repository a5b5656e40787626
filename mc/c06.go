package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// methods are the receiver-context forms of the operations.
var methods = map[string]func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big{
	"Add":        func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Add(x, y) },
	"Sub":        func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Sub(x, y) },
	"Mul":        func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Mul(x, y) },
	"FMA":        func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.FMA(x, y, u) },
	"Quo":        func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Quo(x, y) },
	"QuoInt":     func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.QuoInt(x, y) },
	"Rem":        func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Rem(x, y) },
	"Set":        func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Set(x) },
	"Abs":        func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Abs(x) },
	"Neg":        func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Neg(x) },
	"Round":      func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Round(z.Context.Precision) },
	"Reduce":     func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Reduce() },
	"Quantize":   func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Quantize(c.N) },
	"RoundToInt": func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.RoundToInt() },
}

// checkC06: conditions raised = specification; earlier conditions survive and
// do not influence the result; operands' own contexts stay untouched.
func checkC06(c *Case) string {
	switch c.Op {
	case "err":
		return checkErr(decimal.Condition(c.N), decimal.Condition(c.M))
	case "string":
		return checkCondString(decimal.Condition(c.N))
	case "QuoRem":
		return checkC03(c)
	}
	op := ops[c.Op]
	want, wf := op.model(c)
	prior := decimal.Condition(c.Dirty)
	var z, r *decimal.Big
	if op.inPlace {
		z = c.X.fresh()
	} else {
		z = new(decimal.Big)
	}
	z.Context = c.C.D
	z.Context.Conditions = prior
	run := op.run
	if c.Alias == "m" {
		run = methods[c.Op]
	}
	if op.inPlace {
		r = run(z, c, nil, nil, nil)
	} else {
		r = run(z, c, big1(c.X), big1(c.Y), big1(c.U))
	}
	if r != z {
		return "result: the returned pointer is not the receiver"
	}
	got := numOf(z)
	if !ref.Same(got, want) {
		return fmt.Sprintf("value: got %s want %s (conditions before: %s)", got, want, prior)
	}
	gf := condOf(z.Context.Conditions)
	if gf != wf|condOf(prior) {
		return fmt.Sprintf("flags: got %s want %s (before: %s; result %s)", gf, wf|condOf(prior), condOf(prior), want)
	}
	zc := z.Context
	zc.Conditions = 0
	if zc != c.C.D {
		return fmt.Sprintf("context: the receiver's context changed to %+v", zc)
	}
	if !op.inPlace {
		for i, o := range []*Opd{c.X, c.Y, c.U} {
			if o != nil && o.B.Context != (decimal.Context{}) {
				s := fmt.Sprintf("operand %d: its context changed to %+v", i, o.B.Context)
				o.B = mkBig(o.N, o.Payload)
				return s
			}
		}
	}
	return ""
}

func checkErr(cond, traps decimal.Condition) string {
	ctx := decimal.Context{Conditions: cond, Traps: traps}
	err := ctx.Err()
	m := cond & traps
	if (err != nil) != (m != 0) {
		return fmt.Sprintf("err: Err()=%v with conditions %d and traps %d", err, cond, traps)
	}
	if err != nil {
		var got decimal.Condition
		if !errors.As(err, &got) || got != m {
			return fmt.Sprintf("err: Err()=%v (%v) with conditions %d and traps %d", err, got, cond, traps)
		}
	}
	return ""
}

var condNames = []struct {
	c decimal.Condition
	s string
}{
	{decimal.Clamped, "clamped"}, {decimal.ConversionSyntax, "conversion syntax"}, {decimal.DivisionByZero, "division by zero"},
	{decimal.DivisionImpossible, "division impossible"}, {decimal.DivisionUndefined, "division undefined"}, {decimal.Inexact, "inexact"},
	{decimal.InsufficientStorage, "insufficient storage"}, {decimal.InvalidContext, "invalid context"}, {decimal.InvalidOperation, "invalid operation"},
	{decimal.Overflow, "overflow"}, {decimal.Rounded, "rounded"}, {decimal.Subnormal, "subnormal"}, {decimal.Underflow, "underflow"},
}

func checkCondString(c decimal.Condition) string {
	var parts []string
	for _, n := range condNames {
		if c&n.c != 0 {
			parts = append(parts, n.s)
		}
	}
	if got, want := c.String(), strings.Join(parts, ", "); got != want {
		return fmt.Sprintf("string: %q want %q", got, want)
	}
	return ""
}

func exploreC06(w *Worker) {
	bin := []string{"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem"}
	priors := []int{0}
	for _, n := range condNames {
		priors = append(priors, int(n.c))
	}
	priors = append(priors, 1<<13-1)
	binm := func(xs, ys []*Opd, cs []*Cx, priors []int, methods bool) {
		for _, x := range xs {
			for _, cx := range cs {
				if !w.Block() {
					continue
				}
				for _, y := range ys {
					w.State()
					for _, p := range priors {
						for _, n := range bin {
							if n == "Quo" && y.N.K == ref.Inf && cx.Prec == decimal.UnlimitedPrecision {
								continue // the smallest exponent is unspecified
							}
							w.Do(&Case{Op: n, C: cx, X: x, Y: y, Dirty: p})
							if n == "Rem" {
								w.Do(&Case{Op: "QuoRem", C: cx, X: x, Y: y, Dirty: p})
							}
							if methods {
								w.Do(&Case{Op: n, C: cx, X: x, Y: y, Dirty: p, Alias: "m"})
							}
						}
					}
				}
			}
		}
	}
	// (a) every prior condition x operations whose results exercise every
	// kind of outcome, in contexts of normal and tiny range
	a := opds([]string{"0", "1", "2", "3", "5", "10", "15", "99", "100", "995", "18446744073709551615", "18446744073709551616", "99999999999999999999"}, []int{-21, -3, -1, 0, 1, 3}, true, true)
	ac := []*Cx{mkCx(1, 0, 0, ref.HalfEven), mkCx(2, 3, -3, ref.HalfEven), mkCx(16, 0, 0, ref.Floor), mkCx(20, 0, 0, ref.Down), mkCx(3, 2, -1, ref.Up), mkCx(decimal.UnlimitedPrecision, 0, 0, ref.HalfUp)}
	if w.Thorough() {
		ac = append(ac, cxs([]int{1, 2, 3}, 4, -4, allRounds)...)
	}
	binm(a, a, ac, priors, true)
	un := []string{"Set", "Abs", "Neg", "Round", "Reduce", "RoundToInt", "Floor", "Ceil", "Sqrt"}
	for _, cx := range ac {
		for _, x := range a {
			if !w.Block() {
				continue
			}
			w.State()
			for _, p := range priors {
				for _, n := range un {
					if n == "Sqrt" && cx.Prec == decimal.UnlimitedPrecision {
						continue // no finite result to compare with
					}
					if n == "RoundToInt" || n == "Floor" || n == "Ceil" {
						if cx.Emax != 0 {
							continue
						}
					}
					w.Do(&Case{Op: n, C: cx, X: x, Dirty: p})
					// Round takes the precision as its argument, and 0 there
					// means something else
					if methods[n] != nil {
						w.Do(&Case{Op: n, C: cx, X: x, Dirty: p, Alias: "m"})
					}
				}
				for _, n := range []int{-3, -1, 0, 1, 2, 20} {
					w.Do(&Case{Op: "Quantize", C: cx, X: x, Dirty: p, N: n})
					w.Do(&Case{Op: "Quantize", C: cx, X: x, Dirty: p, N: n, Alias: "m"})
				}
			}
		}
	}
	f := opds([]string{"0", "1", "5", "15", "99", "18446744073709551616"}, []int{-3, 0, 2}, true, true)
	fy := opds([]string{"0", "2", "10", "95"}, []int{-1, 0, 1}, false, true)
	fpri := priors
	if !w.Thorough() {
		fpri = []int{0, int(decimal.InvalidOperation), int(decimal.Clamped), 1<<13 - 1}
	}
	for _, x := range f {
		for _, cx := range ac {
			if !w.Block() {
				continue
			}
			for _, y := range fy {
				for _, u := range f {
					w.State()
					for _, p := range fpri {
						w.Do(&Case{Op: "FMA", C: cx, X: x, Y: y, U: u, Dirty: p})
						w.Do(&Case{Op: "FMA", C: cx, X: x, Y: y, U: u, Dirty: p, Alias: "m"})
					}
				}
			}
		}
	}
	// (b) the value spaces of C01..C04, flags and values, no prior condition
	sm := opds(smallCoefs[:52], rng(-1, 1), true, false)
	sc := cxs([]int{1, 2, 3}, 0, 0, []ref.Round{ref.HalfEven, ref.Up, ref.Ceiling})
	if w.Thorough() {
		sm = opds(smallCoefs[:len(smallCoefs)-4], rng(-2, 2), true, false)
		sc = cxs([]int{1, 2, 3, 4}, 0, 0, allRounds)
	}
	binm(sm, sm, sc, []int{0}, false)
	bc := bigCoefs(w.Thorough())
	bp := []int{16, 20}
	gaps := []int{-40, -20, -19, -1, 0, 19, 20}
	if w.Thorough() {
		bp = []int{1, 16, 19, 20, 34}
		gaps = gapExps
	}
	binm(opds(bc, []int{0, -7}, true, false), opds(bc, gaps, false, false), cxs(bp, 0, 0, []ref.Round{ref.HalfEven, ref.Down}), []int{0}, false)
	lo := opds(longCoefs(w.Thorough()), []int{0}, true, false)
	binm(lo, opds(longMates, []int{-700, -20, 0, 300}, true, false), cxs([]int{16, 77, 310}, 0, 0, []ref.Round{ref.HalfEven, ref.Floor}), []int{0, int(decimal.Subnormal)}, false)
	us := opds(dedup(append(append([]string{}, smallCoefs...), bc...)), append(rng(-4, 3), -40, -39, -38, -22, -21, -20, -19, -18, -17, -16, 17, 20), true, true)
	for _, cx := range cxs([]int{1, 2, 3, 16, 19, 20, 34}, 0, 0, allRounds) {
		for i, x := range us {
			if i%64 == 0 {
				w.skip = !w.Block()
			}
			if w.skip {
				continue
			}
			w.State()
			for _, n := range un {
				w.Do(&Case{Op: n, C: cx, X: x})
			}
			for _, n := range []int{-19, -1, 0, 1, 2, 16, 20, 39} {
				w.Do(&Case{Op: "Quantize", C: cx, X: x, N: n})
			}
		}
	}
	// (c) Err and the condition names, for every condition mask and a
	// representative set (thorough: every one) of trap masks
	var traps []int
	if w.Thorough() {
		for i := 0; i < 1<<13; i++ {
			traps = append(traps, i)
		}
	} else {
		for i := 0; i < 1<<13; i++ {
			if b := i & (i - 1); b&(b-1) == 0 || i == 1<<13-1 || i == int(decimal.Context64.Traps)&(1<<13-1) {
				traps = append(traps, i)
			}
		}
	}
	for m := 0; m < 1<<13; m++ {
		if m%64 == 0 {
			w.skip = !w.Block()
		}
		if w.skip {
			continue
		}
		w.Do(&Case{Op: "string", N: m})
		for _, t := range traps {
			w.Do(&Case{Op: "err", N: m, M: t})
		}
	}
}

func init() {
	register(&Prop{
		ID:      "C06",
		Check:   checkC06,
		Explore: exploreC06,
		Bounds: func(tier string) string {
			return "every binary/unary/ternary core operation (QuoRem: both receivers), function and method form, with each single prior condition, none and all, over 156 signed/special operands x 6 contexts; flags over the small (52 signed coefficients, 3 exponents) and boundary alphabets of C01-C04; Err for all 2^13 condition masks x all trap masks with at most two bits (thorough: all 2^13); Condition.String for all 2^13 masks"
		},
	})
}
