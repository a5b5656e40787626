package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"
	dmath "github.com/ericlagergren/decimal/math"
	"github.com/ericlagergren/decimal/misc"

	"verif/mc/ref"
)

// call is an operation in one of its public forms. r is the second receiver
// of QuoRem.
type call func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big

// opDef lists the forms of an operation: the explicit-context one and those
// that use the receiver's context.
type opDef struct {
	arity   int
	inPlace bool
	two     bool // two results
	slow    bool
	ctx     call
	recv    []call
}

var defs = map[string]*opDef{}
var defNames []string

func def(name string, d *opDef) {
	defs[name] = d
	defNames = append(defNames, name)
}

func init() {
	for _, o := range opList {
		o := o
		d := &opDef{arity: o.arity, inPlace: o.inPlace}
		d.ctx = func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return o.run(z, c, x, y, u) }
		if m := methods[o.name]; m != nil && o.name != "Round" {
			d.recv = append(d.recv, func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return m(z, c, x, y, u) })
		}
		def(o.name, d)
	}
	defs["Sqrt"].recv = append(defs["Sqrt"].recv, func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return dmath.Sqrt(z, x) })
	defs["Ceil"].recv = append(defs["Ceil"].recv, func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return dmath.Ceil(z, x) })
	defs["Floor"].recv = append(defs["Floor"].recv, func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return dmath.Floor(z, x) })
	defs["NextPlus"].recv = append(defs["NextPlus"].recv, func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return misc.NextPlus(z, x) })
	defs["NextMinus"].recv = append(defs["NextMinus"].recv, func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return misc.NextMinus(z, x) })
	def("QuoRem", &opDef{arity: 2, two: true,
		ctx: func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big {
			a, _ := c.C.D.QuoRem(z, x, y, r)
			return a
		},
		recv: []call{func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big {
			a, _ := z.QuoRem(x, y, r)
			return a
		}}})
	one := func(f func(z, x *decimal.Big) *decimal.Big) call {
		return func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return f(z, x) }
	}
	two := func(f func(z, x, y *decimal.Big) *decimal.Big) call {
		return func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return f(z, x, y) }
	}
	wr := map[string]call{
		"Exp": one(dmath.Exp), "Log": one(dmath.Log), "Log10": one(dmath.Log10), "Sin": one(dmath.Sin), "Cos": one(dmath.Cos), "Tan": one(dmath.Tan),
		"Asin": one(dmath.Asin), "Acos": one(dmath.Acos), "Atan": one(dmath.Atan), "Atan2": two(dmath.Atan2), "Hypot": two(dmath.Hypot), "Pow": two(dmath.Pow),
		"Pi": func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return dmath.Pi(z) },
		"E":  func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return dmath.E(z) },
	}
	for _, f := range fnList {
		f := f
		d := &opDef{arity: f.arity, slow: true}
		d.ctx = func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return f.run(c.C.D, z, x, y) }
		d.recv = []call{wr[f.name]}
		def(f.name, d)
	}
	// exact copies: no context involved
	cp := func(name string, ar int, fs ...call) {
		def(name, &opDef{arity: ar, ctx: fs[0], recv: fs[1:]})
	}
	cp("Copy", 1, one(func(z, x *decimal.Big) *decimal.Big { return z.Copy(x) }), one(func(z, x *decimal.Big) *decimal.Big { return z.Canonical(x) }), one(misc.Canonical))
	cp("CopyAbs", 1, one(func(z, x *decimal.Big) *decimal.Big { return z.CopyAbs(x) }), one(misc.CopyAbs))
	cp("CopyNeg", 1, one(func(z, x *decimal.Big) *decimal.Big { return z.CopyNeg(x) }), one(misc.CopyNeg))
	cp("CopySign", 2, two(func(z, x, y *decimal.Big) *decimal.Big { return z.CopySign(x, y) }))
}

// outcome of one execution, in comparable form.
type outcome struct {
	n, r   string
	cond   decimal.Condition
	condR  decimal.Condition
	panics string
}

func (o outcome) String() string {
	s := o.n
	if o.r != "" {
		s += " rem " + o.r
	}
	if o.panics != "" {
		return "panic " + o.panics
	}
	return s + " conditions " + o.cond.String()
}

func show(z *decimal.Big) string {
	n := numOf(z)
	s := n.String()
	if n.IsNaN() {
		s += "#" + z.Payload().String()
	}
	if t := canonical(z); t != "" {
		s += " " + t
	}
	return s
}

func exec1(f call, c *Case, z, r, x, y, u *decimal.Big) (o outcome) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(decimal.ErrNaN); !ok {
				panic(e)
			}
			o = outcome{panics: fmt.Sprintf("%T", e)}
		}
	}()
	zc := z.Context.Conditions
	got := f(c, z, r, x, y, u)
	o.n = show(z)
	o.cond = z.Context.Conditions &^ zc
	if got != z {
		o.n += " (the returned pointer is not the receiver)"
	}
	if r != nil {
		o.r = show(r)
	}
	return o
}

// ownCtx are receiver (and operand) contexts that must not matter when an
// explicit context is given.
func ownCtx(i int, c *Cx) decimal.Context {
	switch i {
	case 1:
		return decimal.Context{Precision: 1, RoundingMode: decimal.AwayFromZero, OperatingMode: c.D.OperatingMode}
	case 2:
		return decimal.Context{Precision: 2, MaxScale: 1, MinScale: -1, RoundingMode: decimal.ToZero, Traps: 1<<20 - 1, OperatingMode: c.D.OperatingMode}
	case 3:
		return decimal.Context{Precision: 90, RoundingMode: decimal.ToNegativeInf, OperatingMode: c.D.OperatingMode}
	}
	return decimal.Context{OperatingMode: c.D.OperatingMode}
}

type aliasing struct {
	name       string
	zx, zy, zu bool
	xy, xu, yu bool
	rx, ry     bool
}

var aliasings = []aliasing{
	{name: ""}, {name: "z=x", zx: true}, {name: "z=y", zy: true}, {name: "z=u", zu: true},
	{name: "x=y", xy: true}, {name: "x=u", xu: true}, {name: "y=u", yu: true},
	{name: "z=x=y", zx: true, xy: true}, {name: "z=x=u", zx: true, xu: true}, {name: "z=y=u", zy: true, yu: true},
	{name: "z=x=y=u", zx: true, xy: true, xu: true}, {name: "x=y=u", xy: true, xu: true},
	{name: "r=x", rx: true}, {name: "r=y", ry: true}, {name: "z=x,r=y", zx: true, ry: true}, {name: "z=y,r=x", zy: true, rx: true},
	{name: "r=x=y", rx: true, xy: true},
}

func aliasingByName(s string) *aliasing {
	for i := range aliasings {
		if aliasings[i].name == s {
			return &aliasings[i]
		}
	}
	return nil
}

// fits reports whether the aliasing makes sense for the operation and operands.
func (a *aliasing) fits(d *opDef, x, y, u *Opd) bool {
	if d.arity < 3 && (a.zu || a.xu || a.yu) || d.arity < 2 && (a.zy || a.xy || a.ry) || d.arity < 1 && (a.zx || a.rx) || !d.two && (a.rx || a.ry) {
		return false
	}
	same := func(p, q *Opd) bool { return p.N.K == q.N.K && p.String() == q.String() }
	return !(a.xy && !same(x, y) || a.xu && !same(x, u) || a.yu && !same(y, u))
}

var c08base struct {
	key string
	o   outcome
}

// checkC08: the outcome is the one of the same operation on separate, fresh
// objects; everything that is not a result keeps its value.
//
// Alias: which objects coincide. Dirty: what the receiver held. N: argument of
// the operation. M: bits 0-1 receiver's own context, bits 2-4 what the
// operands' objects held before, bits 5-6 the operands' own context, bits 7-9
// form (0 explicit context).
func checkC08(c *Case) string {
	d := defs[c.Op]
	key := c.Op + "|" + c.C.String() + "|" + c.X.String() + "|" + c.Y.String() + "|" + c.U.String() + "|" + fmt.Sprint(c.N)
	if c08base.key != key {
		c08base.o = baseline(d, c)
		c08base.key = key
	}
	want := c08base.o
	f, z, r, x, y, u := setup(c, d)
	zctx := z.Context
	type kept struct {
		b   *decimal.Big
		s   string
		ctx decimal.Context
	}
	var keep []kept
	for _, b := range []*decimal.Big{x, y, u} {
		if b != nil && b != z && b != r {
			keep = append(keep, kept{b, show(b), b.Context})
		}
	}
	got := exec1(f, c, z, r, x, y, u)
	if got.n != want.n || got.r != want.r || got.cond != want.cond || got.panics != want.panics {
		k := "value"
		if got.n == want.n && got.r == want.r && got.panics == want.panics {
			k = "conditions"
		}
		return fmt.Sprintf("%s: got %s want %s", k, got, want)
	}
	after := z.Context
	after.Conditions = zctx.Conditions
	if after != zctx {
		return fmt.Sprintf("context: the receiver's own context changed to %+v", z.Context)
	}
	for i, k := range keep {
		if s := show(k.b); s != k.s || k.b.Context != k.ctx {
			return fmt.Sprintf("operand %d: was %s now %s %+v", i, k.s, s, k.b.Context)
		}
	}
	// The result must own its digits: destroying them reaches neither the
	// operands nor anything the library keeps.
	scribble(z)
	if r != nil {
		scribble(r)
	}
	for i, k := range keep {
		if s := show(k.b); s != k.s {
			return fmt.Sprintf("operand %d shares storage with the result: was %s now %s", i, k.s, s)
		}
	}
	if got.panics == "" && (c.Dirty == 0 || d.slow) {
		if again := baseline(d, c); again != want {
			return fmt.Sprintf("shared state: after the result's storage was overwritten the operation yields %s, before %s", again, want)
		}
	}
	return ""
}

func baseline(d *opDef, c *Case) outcome {
	mk := func(o *Opd) *decimal.Big {
		if o == nil {
			return nil
		}
		return o.fresh()
	}
	x, y, u := mk(c.X), mk(c.Y), mk(c.U)
	z := new(decimal.Big)
	if d.inPlace {
		z = x
	}
	z.Context.OperatingMode = c.C.D.OperatingMode
	var r *decimal.Big
	if d.two {
		r = new(decimal.Big)
		r.Context.OperatingMode = c.C.D.OperatingMode
	}
	return exec1(d.ctx, c, z, r, x, y, u)
}

// scribble overwrites every word the object's coefficient can reach.
func scribble(z *decimal.Big) {
	_, u := decimal.Raw(z)
	w := u.Bits()
	w = w[:cap(w)]
	for i := range w {
		w[i] ^= 0x5555555555555555 & big.Word(^uint(0))
	}
	z.Context = decimal.Context{}
	z.SetUint64(0)
}

func exploreC08(w *Worker) {
	th := w.Thorough()
	coefs := []string{"0", "1", "5", "999", "12345", "18446744073709551614", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890"}
	exps := []int{-25, -3, 0, 2}
	if th {
		coefs = append(coefs, "2", "10", "9999999999999999999", "10000000000000000000", pow10s(25), "340282366920938463463374607431768211456")
		exps = []int{-40, -25, -7, -3, -1, 0, 2, 21}
	}
	xs := opds(coefs, exps, true, true)
	core := cxs([]int{3, 0, 25}, 0, 0, []ref.Round{ref.HalfEven, ref.Up})
	core = append(core, mkCx(2, 3, -3, ref.HalfEven), mkCx(decimal.UnlimitedPrecision, 0, 0, ref.HalfEven), mkCx(5, 0, 0, ref.Floor), mkCx(5, 0, 0, ref.HalfEven).goMode())
	us := xs
	if !th {
		us = opds([]string{"0", "7", "18446744073709551616"}, []int{-4, 0}, true, true)
	}
	// variants: every aliasing, receiver state, receiver context, operand
	// history and operand context, one dimension at a time and in pairs with
	// the receiver state.
	variants := func(d *opDef, name string, cx *Cx, x, y, u *Opd, n int) {
		for i := range aliasings {
			a := &aliasings[i]
			if d.inPlace && a.name != "" || !a.fits(d, x, y, u) {
				continue
			}
			free := !(a.zx || a.zy || a.zu || d.inPlace)
			for dirty := 0; dirty < 6; dirty++ {
				if !free && dirty > 0 {
					break
				}
				for own := 0; own < 4; own++ {
					w.Do(&Case{Op: name, C: cx, X: x, Y: y, U: u, N: n, Alias: a.name, Dirty: dirty, M: own})
				}
				for over := 1; over < 6; over++ {
					if dirty == 0 || dirty == over {
						w.Do(&Case{Op: name, C: cx, X: x, Y: y, U: u, N: n, Alias: a.name, Dirty: dirty, M: over << 2})
					}
				}
				for f := range d.recv {
					w.Do(&Case{Op: name, C: cx, X: x, Y: y, U: u, N: n, Alias: a.name, Dirty: dirty, M: (f + 1) << 7})
				}
			}
			for o := 1; o < 4; o++ {
				w.Do(&Case{Op: name, C: cx, X: x, Y: y, U: u, N: n, Alias: a.name, M: o << 5})
			}
		}
	}
	for _, name := range defNames {
		d := defs[name]
		if d.slow {
			continue
		}
		for _, cx := range core {
			if cx.Prec == decimal.UnlimitedPrecision && (name == "Sqrt" || name == "Quo" || name == "NextPlus" || name == "NextMinus") {
				continue
			}
			for _, x := range xs {
				if !w.Block() {
					continue
				}
				ns := []int{0}
				if name == "Quantize" {
					ns = []int{-2, 0, 4, 30}
				}
				for _, n := range ns {
					switch d.arity {
					case 1:
						w.State()
						variants(d, name, cx, x, nil, nil, n)
					case 2:
						for _, y := range xs {
							w.State()
							variants(d, name, cx, x, y, nil, n)
						}
					case 3:
						for _, y := range us {
							for _, u := range us {
								w.State()
								variants(d, name, cx, x, y, u, n)
							}
							w.State()
							variants(d, name, cx, x, y, x, n)
							variants(d, name, cx, x, x, y, n)
							variants(d, name, cx, x, y, y, n)
						}
						variants(d, name, cx, x, x, x, n)
					}
				}
			}
		}
	}
	// long numbers
	lx := opds([]string{addS(pow10s(99), 1), strings.Repeat("9", 155), new(big.Int).Lsh(big.NewInt(1), 1000).String()}, []int{-25, 0}, true, false)
	ly := append(opds([]string{"0", "5", "18446744073709551615", "18446744073709551616"}, []int{-90, 0, 40}, true, false), lx...)
	for _, name := range defNames {
		d := defs[name]
		if d.slow || d.arity > 2 {
			continue
		}
		for _, cx := range cxs([]int{3, 120, 310}, 0, 0, []ref.Round{ref.HalfEven}) {
			for _, x := range lx {
				if !w.Block() {
					continue
				}
				if d.arity == 1 {
					w.State()
					variants(d, name, cx, x, nil, nil, 7)
					continue
				}
				for _, y := range ly {
					w.State()
					variants(d, name, cx, x, y, nil, 0)
					variants(d, name, cx, y, x, nil, 0)
				}
			}
		}
	}
	// elementary functions
	fx := txt("0", "-0", "1", "-1", "0.5", "-0.25", "2", "10", "1E+2", "3.14159265358979323846264338327950288", "0.999999999999999999999", "18446744073709551616E-19", "-7.5", "1E-30", "100.00")
	fx = append(fx, specialOpds()...)
	fcx := cxs([]int{1, 4, 0, 30}, 0, 0, []ref.Round{ref.HalfEven, ref.Up})
	fcx = append(fcx, mkCx(5, 0, 0, ref.HalfEven).goMode(), mkCx(310, 0, 0, ref.HalfEven))
	if th {
		fcx = append(fcx, cxs([]int{2, 19, 50, 100}, 0, 0, []ref.Round{ref.HalfEven, ref.Down, ref.Floor})...)
		fx = append(fx, txt("3", "-3.5", "0.1", "123456789.123456789", "1E+15", "9.9999E-5", "0.7071", "-1E-3")...)
	}
	for _, name := range defNames {
		d := defs[name]
		if !d.slow {
			continue
		}
		for _, cx := range fcx {
			xl := fx
			if cx.Prec > 300 {
				xl = txt("0.5", "2")
			}
			switch d.arity {
			case 0:
				if w.Block() {
					w.State()
					variants(d, name, cx, nil, nil, nil, 0)
				}
			case 1:
				for _, x := range xl {
					if w.Block() {
						w.State()
						variants(d, name, cx, x, nil, nil, 0)
					}
				}
			case 2:
				for _, x := range xl {
					for _, y := range xl {
						if w.Block() {
							w.State()
							variants(d, name, cx, x, y, nil, 0)
						}
					}
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:        "C08",
		Technique: "explicit-state enumeration",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "all public operations; 246 operand states per argument (third argument of FMA too), 10 contexts for the arithmetic and 22 for the elementary functions; 17 aliasing patterns x 6 receiver values x 4 receiver contexts x 6 operand histories x 4 operand contexts x every public form (dimensions combined with the receiver value)"
			}
			return "all public operations; 78 operand states per argument (18 for the second and third argument of FMA), 10 contexts for the arithmetic and 10 for the elementary functions over 21 arguments; 17 aliasing patterns x 6 receiver values x 4 receiver contexts x 6 operand histories x 4 operand contexts x every public form (dimensions combined with the receiver value)"
		},
		Explore: exploreC08,
		Check:   checkC08,
		Assumptions: []string{
			"The reference outcome is the same operation on separate fresh objects; that outcome itself is decided by the other properties.",
			"The two results of QuoRem going to the same object is excluded (undocumented).",
		},
	})
}
