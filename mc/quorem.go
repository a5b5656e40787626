package main

import (
	"fmt"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// checkC03 decides QuoInt, Rem and the pair QuoRem.
func checkC03(c *Case) string {
	if c.Op != "QuoRem" {
		return checkOp(c, aValue)
	}
	wq, fq := c.C.M.QuoInt(c.X.N, c.Y.N)
	wr, fr := c.C.M.Rem(c.X.N, c.Y.N, c.C.Go)
	prior := decimal.Condition(c.Dirty)
	pf := condOf(prior)
	if wq.K == ref.Inf && (c.X.N.K == ref.Inf || c.Y.N.IsZero()) {
		// x/0 and Inf/y: the library documents no remainder; the quotient is
		// an infinity, and dividing by zero shows on either receiver
		z, r := c.C.newZ(), c.C.newZ()
		z.Context.Conditions, r.Context.Conditions = prior, prior
		c.C.D.QuoRem(z, c.X.B, c.Y.B, r)
		if g := numOf(z); !ref.Same(g, wq) {
			return fmt.Sprintf("quotient: got %s want %s", g, wq)
		}
		if f := condOf(z.Context.Conditions); f != fq|pf {
			return fmt.Sprintf("flags of the quotient: got %s want %s", f, fq|pf)
		}
		if f := condOf(r.Context.Conditions); c.X.N.K == ref.Fin && f != fq|pf {
			return fmt.Sprintf("flags of the remainder: got %s want %s", f, fq|pf)
		}
		return ""
	}
	if wq.IsNaN() || wr.IsNaN() {
		wq, wr = ref.NaN(), ref.NaN()
		if fq == 0 {
			fq = fr
		}
		if r, _, ok := nan2(c.X.N, c.Y.N); ok {
			wq, wr = r, r
		}
	}
	if c.C.Go && wq.IsNaN() {
		return goPanics(func() { c.C.D.QuoRem(c.C.newZ(), c.X.B, c.Y.B, c.C.newZ()) })
	}
	z, r := c.C.newZ(), c.C.newZ()
	z.Context.Conditions, r.Context.Conditions = prior, prior
	z1, r1 := c.C.D.QuoRem(z, c.X.B, c.Y.B, r)
	if z1 != z || r1 != r {
		return "result: the returned pointers are not the receivers"
	}
	gq, gr := numOf(z), numOf(r)
	if !ref.Same(gq, wq) {
		return fmt.Sprintf("quotient: got %s want %s", gq, wq)
	}
	if !ref.Same(gr, wr) {
		return fmt.Sprintf("remainder: got %s want %s", gr, wr)
	}
	if f := condOf(z.Context.Conditions); f != fq|pf {
		return fmt.Sprintf("flags of the quotient: got %s want %s", f, fq|pf)
	}
	if c.X.N.K == ref.Fin && c.Y.N.K == ref.Fin {
		if gr.IsNaN() {
			fr = fq // neither receiver has a result, for the same reason
		}
		if f := condOf(r.Context.Conditions); f != fr|pf {
			return fmt.Sprintf("flags of the remainder: got %s want %s", f, fr|pf)
		}
	}
	if s := canonical(z); s != "" {
		return s
	}
	if s := canonical(r); s != "" {
		return s
	}
	for i, o := range []*Opd{c.X, c.Y} {
		if !sameBig(o.B, o) {
			bad := numOf(o.B)
			o.B = mkBig(o.N, o.Payload)
			return fmt.Sprintf("operand %d changed: now %s", i, bad)
		}
	}
	return ""
}

// nan2 is the two-operand NaN propagation rule.
func nan2(x, y ref.Num) (ref.Num, ref.Cond, bool) {
	for _, k := range []ref.Kind{ref.SNaN, ref.QNaN} {
		for _, n := range []ref.Num{x, y} {
			if n.K == k {
				var f ref.Cond
				if k == ref.SNaN {
					f = ref.InvalidOperation
				}
				return ref.Num{K: ref.QNaN, Neg: n.Neg}, f, true
			}
		}
	}
	return ref.Num{}, 0, false
}

func goPanics(f func()) (msg string) {
	defer func() {
		e := recover()
		if e == nil {
			msg = "nan: no panic in Go mode"
		} else if _, ok := e.(decimal.ErrNaN); !ok {
			msg = fmt.Sprintf("nan: Go mode panics with %T (%v) instead of ErrNaN", e, e)
		}
	}()
	f()
	return ""
}
