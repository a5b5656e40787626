package main

import (
	"fmt"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// Variants: the operations of a property under every coincidence of receiver
// and operands, every earlier content of the receiver, both ways of passing
// the context and with earlier conditions pending, compared with the reference
// transition. A case's Op is "v:" and the operation; Alias, Dirty, N and M are
// those of checkC08, and bit 10 of M says that the receiver already has every
// condition.

const allConds = decimal.Condition(1<<13 - 1)

// setup builds the objects of a C08 or variant case.
func setup(c *Case, d *opDef) (f call, z, r, x, y, u *decimal.Big) {
	a := aliasingByName(c.Alias)
	own, over, octx, form := c.M&3, c.M>>2&7, c.M>>5&3, c.M>>7&7
	mk := func(o *Opd) *decimal.Big {
		if o == nil {
			return nil
		}
		b := o.fresh()
		if over > 0 {
			b = mkOver(o, over)
		}
		b.Context = ownCtx(octx, c.C)
		if octx == 0 {
			b.Context = decimal.Context{}
		}
		return b
	}
	x, y, u = mk(c.X), mk(c.Y), mk(c.U)
	if a.xy {
		y = x
	}
	if a.xu {
		u = x
	}
	if a.yu {
		u = y
	}
	switch {
	case d.inPlace || a.zx:
		z = x
	case a.zy:
		z = y
	case a.zu:
		z = u
	default:
		z = dirtyZ(c.Dirty)
	}
	if d.two {
		switch {
		case a.rx:
			r = x
		case a.ry:
			r = y
		default:
			r = dirtyZ((c.Dirty + 3) % 6)
		}
	}
	f = d.ctx
	if form > 0 {
		f = d.recv[form-1]
		z.Context = c.C.D
	} else {
		z.Context = ownCtx(own, c.C)
	}
	if r != nil {
		r.Context = z.Context
	}
	return
}

func checkVariant(c *Case, asp aspect) string {
	name := c.Op[2:]
	d := defs[name]
	var want, wr ref.Num
	var wf, fr ref.Cond
	if d.two {
		want, wf = c.C.M.QuoInt(c.X.N, c.Y.N)
		wr, fr = c.C.M.Rem(c.X.N, c.Y.N, c.C.Go)
		if want.K == ref.Inf && (c.X.N.K == ref.Inf || c.Y.N.IsZero()) {
			return ""
		}
		if want.IsNaN() || wr.IsNaN() {
			want, wr = ref.NaN(), ref.NaN()
			if wf == 0 {
				wf = fr
			}
			if n, _, ok := nan2(c.X.N, c.Y.N); ok {
				want, wr = n, n
			}
		}
	} else {
		cc := *c
		cc.Op = name
		want, wf = ops[name].model(&cc)
	}
	f, z, r, x, y, u := setup(c, d)
	prior := c.M>>10&1 != 0
	if prior {
		z.Context.Conditions = allConds
	}
	type kept struct {
		o *Opd
		b *decimal.Big
	}
	var keep []kept
	for i, b := range []*decimal.Big{x, y, u} {
		if b != nil && b != z && b != r {
			keep = append(keep, kept{[]*Opd{c.X, c.Y, c.U}[i], b})
		}
	}
	if c.C.Go && want.IsNaN() && name != "Set" && name != "Round" {
		return goPanics(func() { f(c, z, r, x, y, u) })
	}
	if got := f(c, z, r, x, y, u); got != z {
		return "result: the returned pointer is not the receiver"
	}
	got := numOf(z)
	if !ref.Same(got, want) {
		return fmt.Sprintf("value: got %s want %s", got, want)
	}
	if s := canonical(z); s != "" {
		return s
	}
	if d.two {
		if gr := numOf(r); !ref.Same(gr, wr) {
			return fmt.Sprintf("remainder: got %s want %s", gr, wr)
		}
		if s := canonical(r); s != "" {
			return s
		}
	}
	if asp&aFlags != 0 && !prior {
		if gf := condOf(z.Context.Conditions); gf != wf {
			return fmt.Sprintf("flags: got %s want %s (result %s)", gf, wf, want)
		}
	}
	for i, k := range keep {
		if !sameBig(k.b, k.o) {
			return fmt.Sprintf("operand %d changed: was %s now %s", i, k.o, numOf(k.b))
		}
	}
	return ""
}

// withVariants adds the variants to a check.
func withVariants(f func(*Case) string, asp aspect) func(*Case) string {
	return func(c *Case) string {
		if strings.HasPrefix(c.Op, "v:") {
			return checkVariant(c, asp)
		}
		return f(c)
	}
}

// variants runs one operation on one tuple of operands in every variant:
// aliasing x receiver content, each with the explicit context and each form
// that uses the receiver's, plus other contexts of the receiver, histories of
// the operands, and pending conditions.
func variants(w *Worker, name string, cx *Cx, x, y, u *Opd, n int) {
	d := defs[name]
	for i := range aliasings {
		a := &aliasings[i]
		if d.inPlace && a.name != "" || !a.fits(d, x, y, u) {
			continue
		}
		w.State()
		free := !(a.zx || a.zy || a.zu || d.inPlace)
		for dirty := 0; dirty < 6; dirty++ {
			if !free && dirty > 0 {
				break
			}
			m := dirty % 4 // the receiver's own context
			w.Do(&Case{Op: "v:" + name, C: cx, X: x, Y: y, U: u, N: n, Alias: a.name, Dirty: dirty, M: m})
			for f := range d.recv {
				w.Do(&Case{Op: "v:" + name, C: cx, X: x, Y: y, U: u, N: n, Alias: a.name, Dirty: dirty, M: (f + 1) << 7})
			}
			w.Do(&Case{Op: "v:" + name, C: cx, X: x, Y: y, U: u, N: n, Alias: a.name, Dirty: dirty, M: 1<<10 | (5-dirty)<<2})
		}
		w.Do(&Case{Op: "v:" + name, C: cx, X: x, Y: y, U: u, N: n, Alias: a.name, M: 3<<5 | 2})
	}
}

// sweepVariants covers all tuples over the operand alphabet.
func sweepVariants(w *Worker, xs, us []*Opd, cxs []*Cx, names ...string) {
	for _, name := range names {
		d := defs[name]
		ns := []int{0}
		if name == "Quantize" {
			ns = []int{-2, 0, 1, 5, 21}
		}
		for _, cx := range cxs {
			for _, x := range xs {
				if !w.Block() {
					continue
				}
				for _, n := range ns {
					switch d.arity {
					case 1:
						variants(w, name, cx, x, nil, nil, n)
					case 2:
						for _, y := range xs {
							variants(w, name, cx, x, y, nil, n)
						}
					case 3:
						for _, y := range us {
							for _, u := range us {
								variants(w, name, cx, x, y, u, n)
							}
							variants(w, name, cx, x, y, x, n)
							variants(w, name, cx, x, x, y, n)
							variants(w, name, cx, x, y, y, n)
						}
						variants(w, name, cx, x, x, x, n)
					}
				}
			}
		}
	}
}

// variantOpds is the operand alphabet of the variants: both sides of the word
// size, exponents on both sides, all special values.
func variantOpds(th bool) (xs, us []*Opd) {
	coefs := []string{"0", "1", "7", "25", "95", "999", "1000", "12345", "9999999999999999999", "18446744073709551614", "18446744073709551615", "18446744073709551616", "123456789012345678901234567"}
	exps := []int{-22, -3, 0, 2}
	if th {
		coefs = append(coefs, "2", "5", "10", "10000000000000000000", pow10s(25), "340282366920938463463374607431768211456")
		exps = []int{-40, -22, -7, -3, -1, 0, 2, 21}
	}
	return opds(coefs, exps, true, true), opds([]string{"0", "7", "18446744073709551616"}, []int{-4, 0}, true, true)
}

const variantBounds = "; every operation also over 110 operand states in all 17 coincidences of receiver and operands x 6 earlier receiver contents x each way of passing the context, with conditions pending and foreign contexts on receiver and operands"
