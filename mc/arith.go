package main

import (
	"fmt"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// opSpec binds one public operation to its reference transition.
type opSpec struct {
	name  string
	arity int
	run   func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big
	model func(c *Case) (ref.Num, ref.Cond)
	// inPlace operations act on the receiver's own value.
	inPlace bool
	// noRound: lossless in Go mode
	lossless bool
}

func goExact(c *Case, exact func(ref.Ctx) (ref.Num, ref.Cond), rounded func(ref.Ctx) (ref.Num, ref.Cond)) (ref.Num, ref.Cond) {
	if c.C.Go {
		r, f := exact(c.C.M)
		if r.K != ref.Fin {
			return r, f
		}
		m := c.C.M
		m = m.Exact() // no precision rounding; the exponent range still applies
		r, f2 := m.Fix(r)
		return r, f | f2
	}
	return rounded(c.C.M)
}

var opList = []*opSpec{
	{name: "Add", arity: 2, lossless: true,
		run: func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Add(z, x, y) },
		model: func(c *Case) (ref.Num, ref.Cond) {
			return goExact(c, func(m ref.Ctx) (ref.Num, ref.Cond) { return m.AddExact(c.X.N, c.Y.N) }, func(m ref.Ctx) (ref.Num, ref.Cond) { return m.Add(c.X.N, c.Y.N) })
		}},
	{name: "Sub", arity: 2, lossless: true,
		run: func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Sub(z, x, y) },
		model: func(c *Case) (ref.Num, ref.Cond) {
			return goExact(c, func(m ref.Ctx) (ref.Num, ref.Cond) { return m.SubExact(c.X.N, c.Y.N) }, func(m ref.Ctx) (ref.Num, ref.Cond) { return m.Sub(c.X.N, c.Y.N) })
		}},
	{name: "Mul", arity: 2, lossless: true,
		run: func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Mul(z, x, y) },
		model: func(c *Case) (ref.Num, ref.Cond) {
			return goExact(c, func(m ref.Ctx) (ref.Num, ref.Cond) { return m.MulExact(c.X.N, c.Y.N) }, func(m ref.Ctx) (ref.Num, ref.Cond) { return m.Mul(c.X.N, c.Y.N) })
		}},
	{name: "FMA", arity: 3, lossless: true,
		run: func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.FMA(z, x, y, u) },
		model: func(c *Case) (ref.Num, ref.Cond) {
			return goExact(c, func(m ref.Ctx) (ref.Num, ref.Cond) {
				p, f := m.MulExact(c.X.N, c.Y.N)
				if f != 0 {
					return p, f
				}
				return m.AddExact(p, c.U.N)
			}, func(m ref.Ctx) (ref.Num, ref.Cond) { return m.FMA(c.X.N, c.Y.N, c.U.N) })
		}},
	{name: "Quo", arity: 2,
		run:   func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Quo(z, x, y) },
		model: func(c *Case) (ref.Num, ref.Cond) { return c.C.M.Quo(c.X.N, c.Y.N) }},
	{name: "QuoInt", arity: 2,
		run:   func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.QuoInt(z, x, y) },
		model: func(c *Case) (ref.Num, ref.Cond) { return c.C.M.QuoInt(c.X.N, c.Y.N) }},
	{name: "Rem", arity: 2,
		run:   func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Rem(z, x, y) },
		model: func(c *Case) (ref.Num, ref.Cond) { return c.C.M.Rem(c.X.N, c.Y.N, c.C.Go) }},
	{name: "Sqrt", arity: 1,
		run:   func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Sqrt(z, x) },
		model: func(c *Case) (ref.Num, ref.Cond) { return c.C.M.Sqrt(c.X.N) }},
	{name: "Set", arity: 1,
		run: func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Set(z, x) },
		model: func(c *Case) (ref.Num, ref.Cond) {
			if c.X.N.K != ref.Fin {
				return c.X.N, 0
			}
			if c.C.Go {
				m := c.C.M
				m = m.Exact()
				return m.Fix(c.X.N)
			}
			return c.C.M.Fix(c.X.N)
		}},
	{name: "Abs", arity: 1,
		run: func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Abs(z, x) },
		model: func(c *Case) (ref.Num, ref.Cond) {
			if r, f, ok := nan1(c.X.N); ok {
				return r, f
			}
			if c.X.N.K == ref.Inf {
				return ref.Infinity(false), 0
			}
			return fixMode(c, ref.Abs(c.X.N))
		}},
	{name: "Neg", arity: 1,
		run: func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Neg(z, x) },
		model: func(c *Case) (ref.Num, ref.Cond) {
			if r, f, ok := nan1(c.X.N); ok {
				return r, f
			}
			if c.X.N.K == ref.Inf {
				return ref.Infinity(!c.X.N.Neg), 0
			}
			if c.X.N.IsZero() {
				// 0 - x
				n := c.X.N
				n.Neg = c.C.M.R == ref.Floor && !n.Neg
				return fixMode(c, n)
			}
			return fixMode(c, ref.Negate(c.X.N))
		}},
	{name: "Round", arity: 1, inPlace: true,
		run: func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Round(z) },
		model: func(c *Case) (ref.Num, ref.Cond) {
			if c.X.N.K != ref.Fin {
				return c.X.N, 0
			}
			return c.C.M.Fix(c.X.N)
		}},
	{name: "Reduce", arity: 1, inPlace: true,
		run:   func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Reduce(z) },
		model: func(c *Case) (ref.Num, ref.Cond) { return c.C.M.Reduce(c.X.N) }},
	{name: "Quantize", arity: 1, inPlace: true,
		run:   func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Quantize(z, c.N) },
		model: func(c *Case) (ref.Num, ref.Cond) { return c.C.M.Quantize(c.X.N, -c.N) }},
	{name: "RoundToInt", arity: 1, inPlace: true,
		run:   func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.RoundToInt(z) },
		model: func(c *Case) (ref.Num, ref.Cond) { return c.C.M.ToInt(c.X.N) }},
	{name: "Floor", arity: 1,
		run: func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Floor(z, x) },
		model: func(c *Case) (ref.Num, ref.Cond) {
			m := c.C.M
			m.R = ref.Floor
			return m.ToInt(c.X.N)
		}},
	{name: "Ceil", arity: 1,
		run: func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.Ceil(z, x) },
		model: func(c *Case) (ref.Num, ref.Cond) {
			m := c.C.M
			m.R = ref.Ceiling
			return m.ToInt(c.X.N)
		}},
	{name: "NextPlus", arity: 1,
		run:   func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.NextPlus(z, x) },
		model: func(c *Case) (ref.Num, ref.Cond) { return c.C.M.Next(c.X.N, true) }},
	{name: "NextMinus", arity: 1,
		run:   func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return c.C.D.NextMinus(z, x) },
		model: func(c *Case) (ref.Num, ref.Cond) { return c.C.M.Next(c.X.N, false) }},
}

func fixMode(c *Case, n ref.Num) (ref.Num, ref.Cond) {
	m := c.C.M
	if c.C.Go {
		m = m.Exact()
	}
	return m.Fix(n)
}

func nan1(x ref.Num) (ref.Num, ref.Cond, bool) {
	if !x.IsNaN() {
		return x, 0, false
	}
	var f ref.Cond
	if x.K == ref.SNaN {
		f = ref.InvalidOperation
	}
	return ref.Num{K: ref.QNaN, Neg: x.Neg}, f, true
}

var ops = map[string]*opSpec{}

func init() {
	for _, o := range opList {
		ops[o.name] = o
	}
	// the method takes the precision as an argument; the receiver's other
	// settings apply
	ops["RoundN"] = &opSpec{name: "RoundN", arity: 1, inPlace: true,
		run: func(z *decimal.Big, c *Case, x, y, u *decimal.Big) *decimal.Big { return z.Round(c.N) },
		model: func(c *Case) (ref.Num, ref.Cond) {
			if c.N <= 0 || c.X.N.K != ref.Fin {
				return c.X.N, 0
			}
			m := c.C.M
			m.Prec = c.N
			return m.Fix(c.X.N)
		}}
}

type aspect int

const (
	aValue aspect = 1 << iota
	aFlags
)

func big1(o *Opd) *decimal.Big {
	if o == nil {
		return nil
	}
	return o.B
}

// checkOp runs the operation into a fresh receiver and compares with the
// reference transition.
func checkOp(c *Case, asp aspect) string {
	op := ops[c.Op]
	var z, r *decimal.Big
	want, wf := op.model(c)
	if c.C.Go && want.IsNaN() && c.Op != "Set" && c.Op != "RoundN" && c.Op != "Round" {
		return checkGoNaN(op, c)
	}
	if op.inPlace {
		z = c.X.fresh()
		z.Context = c.C.D
		r = op.run(z, c, nil, nil, nil)
	} else {
		z = c.C.newZ()
		r = op.run(z, c, big1(c.X), big1(c.Y), big1(c.U))
	}
	if r != z {
		return "result: the returned pointer is not the receiver"
	}
	if asp&aValue != 0 {
		got := numOf(z)
		if !ref.Same(got, want) {
			k := "value"
			if got.K == ref.Fin && want.K == ref.Fin {
				if ref.Cmp(got, want) == 0 && got.Neg == want.Neg {
					k = "exponent"
				} else if ref.Cmp(got, want) == 0 {
					k = "sign of zero"
				}
			}
			return fmt.Sprintf("%s: got %s want %s", k, got, want)
		}
		if s := canonical(z); s != "" {
			return s
		}
	}
	if asp&aFlags != 0 {
		gf := condOf(z.Context.Conditions)
		if gf != wf {
			return fmt.Sprintf("flags: got %s want %s (result %s)", gf, wf, want)
		}
	}
	if !op.inPlace {
		for i, o := range []*Opd{c.X, c.Y, c.U} {
			if o != nil && !sameBig(o.B, o) {
				bad := numOf(o.B)
				o.B = mkBig(o.N, o.Payload)
				return fmt.Sprintf("operand %d changed: now %s", i, bad)
			}
		}
	}
	return ""
}

// checkGoNaN: in the Go operating mode a NaN result must surface as a panic
// carrying ErrNaN.
func checkGoNaN(op *opSpec, c *Case) (msg string) {
	defer func() {
		e := recover()
		if e == nil {
			msg = "nan: no panic in Go mode"
		} else if _, ok := e.(decimal.ErrNaN); !ok {
			msg = fmt.Sprintf("nan: Go mode panics with %T instead of ErrNaN", e)
		}
	}()
	if op.inPlace {
		z := c.X.fresh()
		z.Context = c.C.D
		op.run(z, c, nil, nil, nil)
	} else {
		op.run(c.C.newZ(), c, big1(c.X), big1(c.Y), big1(c.U))
	}
	return ""
}
