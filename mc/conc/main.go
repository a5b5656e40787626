//go:build verifconc
// +build verifconc

// Command conc explores the interleavings of one scenario: two or three
// goroutines, each running one operation of the library on shared operands
// and its own receiver, under the controlled scheduler of package vsync.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/math"
	"github.com/ericlagergren/decimal/misc"
	"github.com/ericlagergren/decimal/sql/postgres"
	vsync "github.com/ericlagergren/decimal/zz_vsync"
)

type env struct {
	a, b, c, d, h, w, t, m, n, i, one *decimal.Big
	mant                              *big.Int
	rat                               *big.Rat
	flt                               *big.Float
	all                               []*decimal.Big
}

// allTexts are the shared operands of the matrix operations.
var allTexts = []string{
	"0", "-0", "0E+7", "1", "-1", "0.5", "7E+20", "1E-400", "18446744073709551615",
	"99999999999999999999.5", "-123456789012345678901234567890", "1E+19", "1E+5", "12300E-2",
	"NaN42", "-sNaN7", "Infinity", "-Infinity",
}

// terms is the continued fraction 1 + 1/(1.25 + 1/(1.25 + ...)) over shared
// terms.
type terms struct {
	e *env
	n int
}

func (t *terms) Next() bool { t.n--; return t.n >= 0 }

func (t *terms) Term() decimal.Term { return decimal.Term{A: t.e.one, B: t.e.a} }

func big1(s string) *decimal.Big {
	z := decimal.WithContext(decimal.Context{Precision: decimal.UnlimitedPrecision})
	if _, ok := z.SetString(s); !ok {
		panic(s)
	}
	z.Context = decimal.Context{}
	return z
}

func newEnv() *env {
	e := &env{
		a: big1("1.25"),
		b: big1("-123456789012345678901234567.890"),
		c: big1("3E-40"),
		d: big1("7E+45"),
		h: big1("0.3"),
		w: big1("2.718281828459045235360287471352662497757247093699959574966967627724076630353547594571382178525166427427466391932003"),
		t: big1("12300000000000000000000000000000E-3"),
		m: big1("18446744073709551616"),
		n: big1("NaN7"),
		i: big1("-Infinity"),

		one:  big1("1"),
		mant: new(big.Int).Exp(big.NewInt(-7), big.NewInt(61), nil),
		rat:  new(big.Rat).SetFrac(new(big.Int).Exp(big.NewInt(3), big.NewInt(70), nil), new(big.Int).Exp(big.NewInt(2), big.NewInt(80), nil)),
		flt:  new(big.Float).SetMantExp(big.NewFloat(1.5), 90),
	}
	for _, t := range allTexts {
		e.all = append(e.all, big1(t))
	}
	return e
}

// guard runs f and returns its result or what it panicked with.
func guard(f func() string) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = fmt.Sprintf("panic %T", p)
		}
	}()
	return f()
}

func newZ(p int) *decimal.Big { return decimal.WithContext(decimal.Context{Precision: p}) }

func show(z *decimal.Big) string {
	if z == nil {
		return "nil"
	}
	c, u := decimal.Raw(z)
	s := fmt.Sprintf("%v/%v ", z.Signbit(), z.Context.Conditions)
	switch {
	case z.IsNaN(0):
		return s + fmt.Sprintf("NaN %d", uint64(z.Payload()))
	case z.IsInf(0):
		return s + "Inf"
	}
	if *c != 1<<64-1 {
		return s + strconv.FormatUint(*c, 10) + "E" + strconv.Itoa(-z.Scale())
	}
	return s + u.String() + "E" + strconv.Itoa(-z.Scale())
}

type op struct {
	name string
	f    func(e *env) string
}

func z1(name string, p int, f func(z *decimal.Big, e *env)) op {
	return op{name, func(e *env) string {
		z := newZ(p)
		f(z, e)
		return show(z)
	}}
}

type B = decimal.Big

func ops() []op {
	return []op{
		// no shared state but operands
		z1("add", 16, func(z *B, e *env) { z.Add(e.a, e.b) }),
		z1("addfar", 60, func(z *B, e *env) { z.Add(e.c, e.a) }),
		z1("addbig", 0, func(z *B, e *env) { z.Add(e.d, e.b) }),
		z1("subbig", 100, func(z *B, e *env) { z.Sub(e.w, e.d) }),
		z1("mul", 20, func(z *B, e *env) { z.Mul(e.b, e.w) }),
		z1("fma", 40, func(z *B, e *env) { z.FMA(e.b, e.w, e.c) }),
		z1("quo", 30, func(z *B, e *env) { z.Quo(e.w, e.b) }),
		z1("quosmall", 50, func(z *B, e *env) { z.Quo(e.a, e.h) }),
		z1("quoint", 50, func(z *B, e *env) { z.QuoInt(e.d, e.b) }),
		z1("rem", 50, func(z *B, e *env) { z.Rem(e.d, e.b) }),
		op{"quorem", func(e *env) string {
			q, r := newZ(40).QuoRem(e.b, e.a, newZ(40))
			return show(q) + " " + show(r)
		}},
		z1("sqrt", 40, func(z *B, e *env) { math.Sqrt(z, e.m) }),
		op{"cmp", func(e *env) string {
			return fmt.Sprint(e.c.Cmp(e.d), e.b.Cmp(e.t), e.t.Cmp(e.m), e.a.CmpAbs(e.b), e.b.CmpTotal(e.t), e.w.CmpTotalAbs(e.t), e.n.CmpTotal(e.i), misc.SameQuantum(e.a, e.b))
		}},
		z1("quantize", 80, func(z *B, e *env) { z.Copy(e.w).Quantize(40) }),
		z1("round", 0, func(z *B, e *env) { z.Copy(e.b).Round(25) }),
		z1("reduce", 0, func(z *B, e *env) { z.Copy(e.t).Reduce() }),
		z1("toint", 50, func(z *B, e *env) { z.Copy(e.b).RoundToInt() }),
		z1("ceil", 50, func(z *B, e *env) { math.Ceil(z, e.w) }),
		z1("floor", 50, func(z *B, e *env) { math.Floor(z, e.b) }),
		z1("set", 20, func(z *B, e *env) { z.Set(e.w) }),
		z1("negabs", 20, func(z *B, e *env) { z.Neg(e.w); z.Abs(e.b); z.CopyNeg(e.t); z.CopySign(e.w, e.b) }),
		z1("setrat", 40, func(z *B, e *env) { z.SetRat(big.NewRat(22, 7)) }),
		z1("setfloat", 20, func(z *B, e *env) { z.SetFloat64(1.0e-30); z.SetFloat(big.NewFloat(1.5e40)) }),
		z1("setstring", 20, func(z *B, e *env) { z.SetString("123456789012345678901234567890e-7") }),
		z1("next", 20, func(z *B, e *env) { misc.NextPlus(z, e.w); misc.NextMinus(z, e.a) }),
		z1("specials", 20, func(z *B, e *env) { z.Add(e.n, e.i); z.Mul(e.i, e.a); z.Quo(e.i, e.i) }),
		op{"text", func(e *env) string {
			m, _ := e.w.MarshalText()
			return e.b.String() + string(m) + fmt.Sprintf("%.3f %e %+g %q %s %v", e.b, e.w, e.t, e.c, e.d, e.n)
		}},
		op{"fixed", func(e *env) string { return fmt.Sprintf("%.30f %.2e %40.5f", e.c, e.w, e.d) }},
		op{"convert", func(e *env) string {
			f, ok := e.w.Float64()
			i, ok2 := e.b.Int64()
			u, ok3 := e.m.Uint64()
			return fmt.Sprint(f, ok, i, ok2, u, ok3, e.b.Int(nil), e.w.Rat(nil), e.t.Float(nil).Text('g', 20), e.b.IsInt(), e.t.IsInt(), e.a.IsNormal(), e.b.IsSubnormal(), e.t.Precision(), e.w.Scale(), e.b.Sign(), e.b.Class())
		}},
		op{"decompose", func(e *env) string {
			f, n, c, x := e.b.Decompose(nil)
			z := new(B)
			err := z.Compose(f, n, c, x)
			return fmt.Sprint(f, n, c, x, err, show(z))
		}},
		op{"postgres", func(e *env) string {
			v, err := (&postgres.Decimal{V: e.w, Round: true}).Value()
			return fmt.Sprint(v, err)
		}},
		op{"minmax", func(e *env) string {
			return show(misc.Max(e.a, e.b, e.c)) + show(misc.MinAbs(e.w, e.t)) + show(decimal.Max(e.a, e.d)) + show(decimal.Min(e.a, e.b))
		}},
		op{"read", func(e *env) string {
			var x, y, z, u B
			n, err := fmt.Sscan("12345678901234567890.5 -7e2 ", &x, &y)
			err2 := z.UnmarshalText([]byte("0.00099999999999999999999"))
			err3 := u.UnmarshalJSON([]byte(`"sNaN7"`))
			c := decimal.Context{Precision: 3, MaxScale: 5, MinScale: -5}
			v, ok := c.SetString(new(B), "123456789E-12")
			_, bad := c.SetString(new(B), "12x")
			return fmt.Sprint(n, err, err2, err3, ok, bad) + show(&x) + show(&y) + show(&z) + show(&u) + show(v)
		}},
		op{"fmt2", func(e *env) string {
			return fmt.Sprintf("|%+020.3f|%-30.2e|%#g|% .4G|%x|%08v|%.2f|", e.a, e.w, e.t, e.c, e.h, e.n, e.i) + fmt.Sprint(e.n.IsNaN(1), e.n.Payload(), e.b.Class(), decimal.Condition(1<<13-1), decimal.ToNearestAway, decimal.GDA)
		}},
		op{"errs", func(e *env) string {
			c := decimal.Context{Conditions: decimal.Inexact | decimal.DivisionByZero, Traps: decimal.DivisionByZero}
			z := decimal.WithContext(decimal.Context{OperatingMode: decimal.Go})
			r := func() (r interface{}) {
				defer func() { r = recover() }()
				return z.Add(e.n, e.a)
			}()
			_, bad := r.(decimal.ErrNaN)
			v, err := (&postgres.Decimal{V: e.i}).Value()
			return fmt.Sprint(c.Err(), bad, v, err) + show(newZ(5).Quo(e.a, new(B))) + show(newZ(-1).Add(e.a, e.b))
		}},
		op{"storage", func(e *env) string {
			x := newZ(0).SetBigMantScale(e.mant, 3)
			y := newZ(0).SetBigMantScale(e.mant, -2)
			r := newZ(60).SetRat(e.rat)
			f := newZ(0).SetFloat(e.flt)
			z := new(B).Copy(e.w)
			z.SetSignbit(true).SetScale(4)
			y.Add(y, x)
			misc.SetSignbit(x, false)
			var p postgres.Decimal
			err := p.Scan([]byte("12345678901234567890.25"))
			form, neg, coef, exp := e.w.Decompose(make([]byte, 0, 64))
			q := new(B)
			err2 := q.Compose(form, neg, coef, exp)
			return show(x) + show(y) + show(r) + show(f) + show(z) + show(p.V) + show(q) + fmt.Sprint(err, err2)
		}},
		op{"split", func(e *env) string {
			// the exponential series at 1
			one := func(n uint64) *B { return e.one }
			q := func(n uint64) *B {
				if n == 0 {
					return e.one
				}
				return new(B).SetUint64(n)
			}
			return show(math.BinarySplit(newZ(20), decimal.Context{Precision: 20}, 0, 5, one, one, one, q))
		}},
		op{"fraction", func(e *env) string {
			return show(math.Lentz(newZ(12), &terms{e: e, n: 4})) + show(math.Wallis(newZ(12), &terms{e: e, n: 4}))
		}},
		// many methods over many shared operands
		op{"unary", func(e *env) string {
			var s strings.Builder
			for _, x := range e.all {
				for _, p := range []int{3, 40} {
					z := newZ(p)
					show := func() { s.WriteString(show(z)); z.Context.Conditions = 0 }
					z.Set(x)
					show()
					z.Neg(x)
					show()
					z.Abs(x)
					show()
					z.Context.RoundingMode = decimal.ToPositiveInf
					z.Context.Round(z.Copy(x))
					show()
					z.Context.RoundToInt(z.Copy(x))
					show()
					z.Copy(x).Reduce()
					show()
					z.Copy(x).Quantize(2)
					show()
					z.Copy(x).Quantize(-2)
					show()
					math.Sqrt(z, x)
					show()
					math.Ceil(z, x)
					show()
					misc.NextMinus(z, x)
					show()
				}
				s.WriteString(guard(func() string { return x.Rat(nil).String() }))
				i, ok := x.Int64()
				u, ok2 := x.Uint64()
				f, ok3 := x.Float64()
				m, err := x.MarshalText()
				form, neg, coef, exp := x.Decompose(nil)
				v, err2 := (&postgres.Decimal{V: x, Zero: true}).Value()
				fmt.Fprint(&s, i, ok, u, ok2, f, ok3, string(m), err, form, neg, coef, exp, v, err2)
				if x.Scale() > -50 && x.Scale() < 50 {
					fmt.Fprint(&s, x.Int(nil), x.Float(nil))
				}
				fmt.Fprint(&s, x.IsInt(), x.IsNormal(), x.IsSubnormal(), x.IsFinite(), x.IsNaN(0), x.IsInf(0), x.Sign(), x.Class(), x.Precision(), x.Payload())
				fmt.Fprintf(&s, "%s %v %+v %.3f %E %-40.2g %#q %d", x, x, x, x, x, x, x, x)
			}
			return s.String()
		}},
		op{"binary", func(e *env) string {
			var s strings.Builder
			z, r := newZ(9), newZ(9)
			for i, x := range e.all {
				for j, y := range e.all {
					for k, f := range []func(){
						func() { z.Add(x, y) }, func() { z.Sub(x, y) }, func() { z.Mul(x, y) }, func() { z.Quo(x, y) },
						func() { z.QuoInt(x, y) }, func() { z.Rem(x, y) }, func() { z.QuoRem(x, y, r) },
						func() { z.FMA(x, y, e.all[(i+j)%len(e.all)]) }, func() { z.CopySign(x, y) },
						func() { z.Copy(misc.Max(x, y)); r.Copy(misc.MinAbs(x, y)) },
						func() { z.Copy(misc.MaxAbs(x, y)); r.Copy(misc.Min(x, y)) },
					} {
						if k < 9 && (i+2*j+k)%3 != 0 {
							continue
						}
						z.Context.Conditions, r.Context.Conditions = 0, 0
						z.Context.RoundingMode = decimal.RoundingMode((i + j) % 6)
						f()
						s.WriteString(show(z))
						s.WriteString(show(r))
					}
					fmt.Fprint(&s, x.CmpTotal(y), x.CmpTotalAbs(y), misc.SameQuantum(x, y))
					if !x.IsNaN(0) && !y.IsNaN(0) {
						fmt.Fprint(&s, x.Cmp(y), x.CmpAbs(y))
					}
				}
			}
			return s.String()
		}},
		op{"edges", func(e *env) string {
			var s strings.Builder
			z := newZ(5)
			for i, x := range e.all {
				if a := x.Scale(); x.IsFinite() && (a < -6 || a > 6) {
					continue
				}
				if x.IsFinite() && x.CmpAbs(e.d) >= 0 {
					continue
				}
				for k, f := range []func(z, x *B) *B{math.Exp, math.Log, math.Log10, math.Sin, math.Cos, math.Tan, math.Asin, math.Acos, math.Atan} {
					if x.IsFinite() && x.Precision() > 12 && k != 1 && k != 2 {
						continue
					}
					if k == 0 && x.IsFinite() && x.Precision() > 5 {
						continue
					}
					z.Context = decimal.Context{Precision: 5}
					f(z, x)
					s.WriteString(show(z))
				}
				for _, y := range []*B{e.all[0], e.all[4], e.all[5], e.all[16]} {
					z.Context = decimal.Context{Precision: 5}
					math.Atan2(z, x, y)
					s.WriteString(show(z))
					if i%2 == 0 && (!x.IsFinite() || x.Precision() < 6) {
						z.Context = decimal.Context{Precision: 5}
						math.Pow(z, x, y)
						s.WriteString(show(z))
					}
				}
			}
			return s.String()
		}},
		op{"parse", func(e *env) string {
			var s strings.Builder
			for _, t := range []string{"", "+", "1e", "1e+", "x", "1_0", ".", ".5", "5.", "-00012.500", "inf", "-Infinity", "+nan", "qNaN12", "-snan", "NaNx", "1e99999999999999999999", "1e-99999999999999999999",
				"0e5000000000000000000", "1234567890123456789012345678901234567890.123456789e-5", "0.000", "18446744073709551615", "18446744073709551616"} {
				for _, p := range []int{3, 0, decimal.UnlimitedPrecision} {
					z := newZ(p)
					_, ok := z.SetString(t)
					s.WriteString(show(z))
					v, ok2 := z.Context.SetString(new(B), t)
					fmt.Fprint(&s, ok, ok2)
					if v != nil {
						s.WriteString(show(v))
					}
				}
				u, j := newZ(7), newZ(7)
				err := u.UnmarshalText([]byte(t))
				err2 := j.UnmarshalJSON([]byte(t))
				fmt.Fprint(&s, err != nil, err2 != nil, show(u), show(j))
				var sc B
				n, err3 := fmt.Sscan(t, &sc)
				fmt.Fprint(&s, n, err3 != nil, show(&sc))
				var p postgres.Decimal
				err4 := p.Scan(t)
				fmt.Fprint(&s, err4 != nil)
			}
			return s.String()
		}},
		op{"shapes", func(e *env) string {
			var s strings.Builder
			for _, v := range []float64{0, 1, -0.1, 1e300, 5e-324, 123456789} {
				z := newZ(20).SetFloat64(v)
				s.WriteString(show(z))
				s.WriteString(show(newZ(20).SetFloat(big.NewFloat(v))))
			}
			for _, v := range []int64{0, -1, 1 << 62, -1 << 63} {
				s.WriteString(show(newZ(4).SetMantScale(v, 2)))
				s.WriteString(show(newZ(20).SetUint64(uint64(v))))
				s.WriteString(show(newZ(20).SetBigMantScale(big.NewInt(v), -2)))
				s.WriteString(show(newZ(20).SetRat(big.NewRat(v, 7))))
			}
			for _, c := range []decimal.Context{decimal.Context32, decimal.Context64, decimal.Context128, decimal.ContextUnlimited, {Precision: 5, MaxScale: 3, MinScale: -3, Traps: decimal.Overflow}} {
				for i := 0; i+3 < len(e.all); i += 2 {
					z := decimal.WithContext(c)
					s.WriteString(guard(func() string { return show(c.Mul(z, e.all[i], e.all[i+1])) }))
					if c.Precision != decimal.UnlimitedPrecision {
						s.WriteString(guard(func() string { return show(c.Quo(z, e.all[i+2], e.all[i+1])) }))
						s.WriteString(guard(func() string { return show(c.Add(z, e.all[i], e.all[i+2])) }))
					}
				}
				fmt.Fprint(&s, c.Err())
			}
			for _, m := range []decimal.RoundingMode{decimal.ToNearestEven, decimal.AwayFromZero, decimal.ToZero, decimal.ToNegativeInf, decimal.ToPositiveInf, decimal.ToNearestAway, 99} {
				fmt.Fprint(&s, m)
			}
			for _, f := range []byte{0, 1, 2, 3} {
				z := new(B)
				err := z.Compose(f, true, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}, -3)
				fmt.Fprint(&s, show(z), err != nil)
			}
			return s.String()
		}},
		z1("ebig", 320, func(z *B, e *env) { math.E(z) }),
		// growth of the table of powers of ten
		z1("q30", decimal.UnlimitedPrecision, func(z *B, e *env) { z.SetMantScale(7, 0).Quantize(30) }),
		z1("q90", decimal.UnlimitedPrecision, func(z *B, e *env) { z.SetMantScale(7, 0).Quantize(90) }),
		z1("q700", decimal.UnlimitedPrecision, func(z *B, e *env) { z.SetMantScale(7, 0).Quantize(700) }),
		z1("q100001", decimal.UnlimitedPrecision, func(z *B, e *env) { z.SetMantScale(7, 0).Quantize(100001).SetMantScale(int64(z.Precision()), 0) }),
		// lazily created constants, pool, table
		z1("pi", 20, func(z *B, e *env) { math.Pi(z) }),
		z1("e", 20, func(z *B, e *env) { math.E(z) }),
		z1("pibig", 310, func(z *B, e *env) { math.Pi(z) }),
		z1("exp", 10, func(z *B, e *env) { math.Exp(z, e.a) }),
		z1("log", 10, func(z *B, e *env) { math.Log(z, e.w) }),
		z1("log10", 10, func(z *B, e *env) { math.Log10(z, e.h) }),
		z1("sin", 8, func(z *B, e *env) { math.Sin(z, e.a) }),
		z1("cos", 8, func(z *B, e *env) { math.Cos(z, e.h) }),
		z1("tan", 8, func(z *B, e *env) { math.Tan(z, e.h) }),
		z1("asin", 8, func(z *B, e *env) { math.Asin(z, e.h) }),
		z1("acos", 8, func(z *B, e *env) { math.Acos(z, e.h) }),
		z1("atan", 8, func(z *B, e *env) { math.Atan(z, e.a) }),
		z1("atan2", 8, func(z *B, e *env) { math.Atan2(z, e.a, e.h) }),
		z1("atan2axis", 8, func(z *B, e *env) { math.Atan2(z, e.i, e.h) }),
		z1("hypot", 16, func(z *B, e *env) { math.Hypot(z, e.a, e.b) }),
		z1("powint", 16, func(z *B, e *env) { math.Pow(z, e.w, new(B).SetMantScale(5, 0)) }),
		z1("pow", 8, func(z *B, e *env) { math.Pow(z, e.a, e.h) }),
	}
}

type result struct {
	Scenario  string           `json:"scenario"`
	Schedules int64            `json:"schedules"`
	Points    int64            `json:"points"`
	Visible   int64            `json:"visible"`
	Bound     int              `json:"bound"`
	MaxPts    int              `json:"max_points"`
	Full      bool             `json:"full"`
	Viol      string           `json:"viol,omitempty"`
	Schedule  []uint16         `json:"schedule,omitempty"`
	Want      []string         `json:"-"`
	Outcomes  map[string]int64 `json:"-"`
}

var state *os.File

// note leaves the schedule being run for the parent, in case the race detector
// ends the process.
func note(scn string, pre []uint16) {
	if state == nil {
		return
	}
	b, _ := json.Marshal(struct {
		Scenario string
		Schedule []uint16
	}{scn, pre})
	b = append(b, '\n')
	state.WriteAt(b, 0)
}

func runScenario(scn string, bound int, limit int64, replay []uint16, single bool) result {
	all := map[string]op{}
	for _, o := range ops() {
		all[o.name] = o
	}
	names := strings.Split(scn, "|")
	res := result{Scenario: scn, Bound: -1}
	got := make([]string, len(names))
	var e *env
	bodies := make([]func(), len(names))
	for i, n := range names {
		i := i
		var prog []op
		for _, s := range strings.Split(n, "+") {
			o, ok := all[s]
			if !ok {
				res.Viol = "unknown operation " + s
				return res
			}
			prog = append(prog, o)
		}
		bodies[i] = func() {
			defer func() {
				if p := recover(); p != nil {
					got[i] = fmt.Sprintf("panic: %v", p)
				}
			}()
			r := ""
			for _, o := range prog {
				r += o.f(e) + ";"
			}
			got[i] = r
		}
	}
	var firstGot []string
	vsync.Arm()
	one := func(pre []uint16) (msg string) {
		note(scn, pre)
		e = newEnv()
		for i := range got {
			got[i] = ""
		}
		vsync.Run(bodies, pre)
		res.Schedules++
		res.Points += int64(vsync.NPoints)
		if vsync.NPoints > res.MaxPts {
			res.MaxPts = vsync.NPoints
		}
		defer vsync.Reset()
		if vsync.Overrun {
			return "overrun: the schedule does not fit the execution"
		}
		if vsync.Deadlock {
			return "deadlock"
		}
		if firstGot == nil {
			firstGot = append([]string{}, got...)
		}
		for i := range got {
			if got[i] != firstGot[i] {
				return fmt.Sprintf("result: goroutine %d (%s) yields %s in one schedule and %s in another", i, names[i], firstGot[i], got[i])
			}
		}
		return ""
	}
	finishSeq := func() string {
		// each program alone, afterwards
		for i := range bodies {
			e = newEnv()
			w := firstGot[i]
			got[i] = ""
			vsync.Run(bodies[i:i+1], nil)
			vsync.Reset()
			if got[i] != w {
				return fmt.Sprintf("result: goroutine %d (%s) yields %s concurrently and %s alone", i, names[i], w, got[i])
			}
		}
		return ""
	}
	if replay != nil || single {
		res.Viol = one(replay)
		if res.Viol == "" {
			res.Viol = finishSeq()
		}
		return res
	}
	// Iterative bounding: all schedules of cost <= b, for b = 0, 1, ...; a level
	// is entered only if its estimated size fits the limit.
	var trace []vsync.Point
	var levels []int64
	for b := 0; b <= bound; b++ {
		if b > 0 {
			// estimate from the growth so far
			est := levels[b-1] * int64(res.MaxPts+1)
			if b > 1 {
				est /= int64(b)
			}
			if est > limit {
				break
			}
		}
		var pre []uint16
		n := int64(0)
		for {
			if m := one(pre); m != "" {
				res.Viol = m
				res.Schedule = nil
				for i := 0; i < vsync.NPoints; i++ {
					res.Schedule = append(res.Schedule, vsync.Points[i].Chosen)
				}
				return res
			}
			n++
			trace = append(trace[:0], vsync.Points[:vsync.NPoints]...)
			// next schedule in depth-first order within the budget
			cost := 0
			costs := make([]int, len(trace)+1)
			for i, p := range trace {
				costs[i] = cost
				if p.Chosen > 0 {
					cost += int(p.Cost)
				}
			}
			next := -1
			for i := len(trace) - 1; i >= 0; i-- {
				p := trace[i]
				if p.Chosen+1 < p.N && costs[i]+int(p.Cost) <= b {
					next = i
					break
				}
			}
			if next < 0 {
				break
			}
			pre = pre[:0]
			for i := 0; i < next; i++ {
				pre = append(pre, trace[i].Chosen)
			}
			pre = append(pre, trace[next].Chosen+1)
		}
		levels = append(levels, n)
		res.Bound = b
		if b > 0 && n == levels[b-1] {
			res.Full = true // no further schedules exist
			break
		}
	}
	if m := finishSeq(); m != "" {
		res.Viol = m
	}
	return res
}

func main() {
	scn := flag.String("scenario", "", "")
	bound := flag.Int("bound", 2, "")
	limit := flag.Int64("limit", 2000, "")
	replay := flag.String("replay", "", "")
	st := flag.String("state", "", "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(800)
	if *list {
		for _, o := range ops() {
			fmt.Println(o.name)
		}
		return
	}
	if *st != "" {
		state, _ = os.OpenFile(*st, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
	}
	go func() {
		time.Sleep(300 * time.Second)
		fmt.Fprintln(os.Stderr, "timeout")
		os.Exit(3)
	}()
	var pre []uint16
	single := false
	if *replay != "" {
		single = true
		if err := json.Unmarshal([]byte(*replay), &pre); err != nil {
			panic(err)
		}
	}
	r := runScenario(*scn, *bound, *limit, pre, single)
	out := bufio.NewWriter(os.Stdout)
	b, _ := json.Marshal(r)
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}
