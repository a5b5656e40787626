package main

import (
	"fmt"
	"math/big"
	"strconv"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

const inflated = 1<<64 - 1

// Opd is one operand of the alphabet: the model's datum and the library object
// that represents it (rebuilt whenever an execution corrupts it).
type Opd struct {
	N       ref.Num
	Payload uint64
	B       *decimal.Big
}

func (o *Opd) String() string {
	if o == nil {
		return ""
	}
	s := o.N.String()
	if o.N.IsNaN() && o.Payload != 0 {
		s += "#" + strconv.FormatUint(o.Payload, 10)
	}
	return s
}

func parseOpd(s string) (*Opd, error) {
	var pl uint64
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			var err error
			if pl, err = strconv.ParseUint(s[i+1:], 10, 64); err != nil {
				return nil, err
			}
			s = s[:i]
			break
		}
	}
	n, err := ref.Parse(s)
	if err != nil {
		return nil, err
	}
	return newOpd(n, pl), nil
}

func newOpd(n ref.Num, pl uint64) *Opd {
	o := &Opd{N: n, Payload: pl}
	o.B = mkBig(n, pl)
	return o
}

// mkBig builds the library object for a datum through the public setters.
func mkBig(n ref.Num, pl uint64) *decimal.Big {
	z := new(decimal.Big)
	switch n.K {
	case ref.Fin:
		z.SetBigMantScale(n.C, -n.E)
	case ref.Inf:
		z.SetInf(n.Neg)
	case ref.QNaN, ref.SNaN:
		z.SetNaN(n.K == ref.SNaN)
		if pl != 0 {
			c, _ := decimal.Raw(z)
			*c = pl
		}
	}
	if n.Neg {
		z.SetSignbit(true)
	}
	return z
}

// fresh returns a private deep copy of the operand's library object.
func (o *Opd) fresh() *decimal.Big { return cloneBig(o.B) }

func cloneBig(b *decimal.Big) *decimal.Big {
	z := new(decimal.Big)
	*z = *b
	_, u := decimal.Raw(z)
	_, s := decimal.Raw(b)
	*u = big.Int{}
	u.Set(s)
	return z
}

// numOf reads a library object back into the model's terms.
func numOf(b *decimal.Big) ref.Num {
	switch {
	case b.IsNaN(+1):
		return ref.Num{K: ref.QNaN, Neg: b.Signbit()}
	case b.IsNaN(-1):
		return ref.Num{K: ref.SNaN, Neg: b.Signbit()}
	case b.IsInf(0):
		return ref.Num{K: ref.Inf, Neg: b.Signbit()}
	}
	c, u := decimal.Raw(b)
	n := ref.Num{K: ref.Fin, Neg: b.Signbit(), E: -b.Scale()}
	if *c != inflated {
		n.C = new(big.Int).SetUint64(*c)
	} else {
		n.C = new(big.Int).Set(u)
	}
	return n
}

// canonical checks the representation invariant every finite result must
// satisfy (the ones the library's own debug validation states).
func canonical(b *decimal.Big) string {
	if b.IsNaN(0) || b.IsInf(0) {
		return ""
	}
	c, u := decimal.Raw(b)
	if *c != inflated {
		d := 1
		for v := *c; v >= 10; v /= 10 {
			d++
		}
		if b.Precision() != d {
			return fmt.Sprintf("non-canonical: Precision()=%d but the coefficient %d has %d digits", b.Precision(), *c, d)
		}
		return ""
	}
	if u.Sign() < 0 {
		return "non-canonical: negative unscaled coefficient"
	}
	if u.IsUint64() && u.Uint64() != inflated {
		return fmt.Sprintf("non-canonical: inflated form holds the small coefficient %s", u)
	}
	if d := ref.Digits(u); b.Precision() != d {
		return fmt.Sprintf("non-canonical: Precision()=%d but the coefficient %s has %d digits", b.Precision(), u, d)
	}
	return ""
}

func sameBig(b *decimal.Big, o *Opd) bool {
	n := o.N
	switch n.K {
	case ref.Fin:
		if !b.IsFinite() || b.Signbit() != n.Neg || -b.Scale() != n.E {
			return false
		}
		c, u := decimal.Raw(b)
		if *c != inflated {
			return n.C.IsUint64() && n.C.Uint64() == *c
		}
		return u.Cmp(n.C) == 0
	case ref.Inf:
		return b.IsInf(0) && b.Signbit() == n.Neg
	}
	return b.IsNaN(0) && b.IsNaN(+1) == (n.K == ref.QNaN) && b.Signbit() == n.Neg && uint64(b.Payload()) == o.Payload
}

// Cx is a context of the alphabet.
type Cx struct {
	Prec, Emax, Emin int // as given to the library (0 = default)
	R                ref.Round
	Go               bool
	Traps            uint32
	D                decimal.Context
	M                ref.Ctx
}

func (c *Cx) String() string {
	m := "GDA"
	if c.Go {
		m = "Go"
	}
	return fmt.Sprintf("p=%d emax=%d emin=%d r=%d mode=%s traps=%d", c.Prec, c.Emax, c.Emin, c.R, m, c.Traps)
}

func parseCx(s string) (*Cx, error) {
	var p, e, n, r int
	var m string
	var t uint32
	if _, err := fmt.Sscanf(s, "p=%d emax=%d emin=%d r=%d mode=%s traps=%d", &p, &e, &n, &r, &m, &t); err != nil {
		return nil, err
	}
	c := mkCx(p, e, n, ref.Round(r))
	c.Traps = t
	c.D.Traps = decimal.Condition(t)
	if m == "Go" {
		c.Go = true
		c.D.OperatingMode = decimal.Go
	}
	return c, nil
}

var roundMap = [...]decimal.RoundingMode{decimal.ToNearestEven, decimal.ToNearestAway, decimal.ToZero, decimal.AwayFromZero, decimal.ToNegativeInf, decimal.ToPositiveInf, decimal.ToNearestTowardZero}

func mkCx(p, emax, emin int, r ref.Round) *Cx {
	c := &Cx{Prec: p, Emax: emax, Emin: emin, R: r}
	c.D = decimal.Context{Precision: p, MaxScale: emax, MinScale: emin, RoundingMode: roundMap[r]}
	c.M = ref.Ctx{Prec: p, Emax: emax, Emin: emin, R: r}
	if p == 0 {
		c.M.Prec = 16
	}
	if p == decimal.UnlimitedPrecision {
		c.M.Prec = ref.Unlimited
	}
	if emax == 0 {
		c.M.Emax = decimal.MaxScale
	}
	if emin == 0 {
		c.M.Emin = decimal.MinScale
	}
	return c
}

func (c Cx) goMode() *Cx {
	c.Go = true
	c.D.OperatingMode = decimal.Go
	return &c
}

func (c *Cx) newZ() *decimal.Big {
	z := new(decimal.Big)
	z.Context = c.D
	return z
}

var allRounds = []ref.Round{ref.HalfEven, ref.HalfUp, ref.Down, ref.Up, ref.Floor, ref.Ceiling, ref.HalfDown}

// condMap translates library conditions to the model's by name.
func condOf(c decimal.Condition) ref.Cond {
	var r ref.Cond
	for _, p := range condPairs {
		if c&p.d != 0 {
			r |= p.m
		}
	}
	return r
}

var condPairs = []struct {
	d decimal.Condition
	m ref.Cond
}{
	{decimal.Clamped, ref.Clamped}, {decimal.ConversionSyntax, ref.ConversionSyntax}, {decimal.DivisionByZero, ref.DivisionByZero},
	{decimal.DivisionImpossible, ref.DivisionImpossible}, {decimal.DivisionUndefined, ref.DivisionUndefined}, {decimal.Inexact, ref.Inexact},
	{decimal.InsufficientStorage, ref.InsufficientStorage}, {decimal.InvalidContext, ref.InvalidContext}, {decimal.InvalidOperation, ref.InvalidOperation},
	{decimal.Overflow, ref.Overflow}, {decimal.Rounded, ref.Rounded}, {decimal.Subnormal, ref.Subnormal}, {decimal.Underflow, ref.Underflow},
}

// opds builds an operand alphabet.
func opds(coefs []string, exps []int, signs bool, specials bool) []*Opd {
	var out []*Opd
	for _, c := range coefs {
		n, ok := new(big.Int).SetString(c, 10)
		if !ok {
			panic(c)
		}
		for _, e := range exps {
			out = append(out, newOpd(ref.Num{K: ref.Fin, C: n, E: e}, 0))
			if signs {
				out = append(out, newOpd(ref.Num{K: ref.Fin, Neg: true, C: n, E: e}, 0))
			}
		}
	}
	if specials {
		out = append(out, specialOpds()...)
	}
	return out
}

func specialOpds() []*Opd {
	var out []*Opd
	for _, ng := range []bool{false, true} {
		out = append(out, newOpd(ref.Num{K: ref.Inf, Neg: ng}, 0), newOpd(ref.Num{K: ref.QNaN, Neg: ng}, 0), newOpd(ref.Num{K: ref.SNaN, Neg: ng}, 7))
	}
	return out
}

func ints(lo, hi int) []string {
	var s []string
	for i := lo; i <= hi; i++ {
		s = append(s, strconv.Itoa(i))
	}
	return s
}

func rng(lo, hi int) []int {
	var s []int
	for i := lo; i <= hi; i++ {
		s = append(s, i)
	}
	return s
}

func pow10s(k int) string { return ref.Pow10(k).String() }

func addS(a string, d int64) string {
	n, _ := new(big.Int).SetString(a, 10)
	return n.Add(n, big.NewInt(d)).String()
}

func dedup(xs []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range xs {
		if !seen[x] && x[0] != '-' {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}
