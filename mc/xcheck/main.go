// Command xcheck prints what the reference model says about an enumerated
// subspace, for tools/crosscheck.py to compare with CPython's decimal.
package main

import (
	"bufio"
	"fmt"
	"os"

	"verif/mc/ref"
)

func main() {
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	var small, big []ref.Num
	add := func(l *[]ref.Num, coef string, exps ...int) {
		for _, e := range exps {
			for _, s := range []string{"", "-"} {
				*l = append(*l, ref.MustParse(fmt.Sprintf("%s%sE%d", s, coef, e)))
			}
		}
	}
	for _, c := range []string{"0", "1", "2", "3", "4", "5", "6", "9", "10", "11", "15", "25", "45", "49", "50", "51", "55", "95", "99", "100", "101", "125", "949", "950", "995", "999", "1000", "9999"} {
		add(&small, c, -3, -2, -1, 0, 1, 2)
	}
	for _, c := range []string{"0", "1", "5", "99", "4999999999999999", "5000000000000000", "9999999999999995", "9999999999999999", "18446744073709551615", "18446744073709551616", "99999999999999999999", "100000000000000000000", "340282366920938463463374607431768211455", "5000000000000000000000000000000000000001"} {
		add(&big, c, -45, -20, -16, -1, 0, 1, 19, 40)
	}
	for _, s := range []string{"Infinity", "-Infinity", "NaN", "-NaN"} {
		small = append(small, ref.MustParse(s))
	}
	show := func(n ref.Num) string { return n.String() }
	out := func(op string, c ref.Ctx, r ref.Num, f ref.Cond, xs ...string) {
		fmt.Fprint(w, op, " ", c.Prec, " ", c.Emax, " ", c.Emin, " ", ref.RoundNames[c.R], " ", show(r), " ", uint32(f))
		for _, x := range xs {
			fmt.Fprint(w, " ", x)
		}
		fmt.Fprintln(w)
	}
	binary := func(c ref.Ctx, x, y ref.Num) {
		xs, ys := show(x), show(y)
		r, f := c.Add(x, y)
		out("add", c, r, f, xs, ys)
		r, f = c.Sub(x, y)
		out("subtract", c, r, f, xs, ys)
		r, f = c.Mul(x, y)
		out("multiply", c, r, f, xs, ys)
		r, f = c.Quo(x, y)
		out("divide", c, r, f, xs, ys)
		r, f = c.QuoInt(x, y)
		out("divide_int", c, r, f, xs, ys)
		r, f = c.Rem(x, y, false)
		out("remainder", c, r, f, xs, ys)
		if !x.IsNaN() && !y.IsNaN() {
			out("compare", c, ref.FinInt(ref.Cmp(x, y) < 0, int64(ref.Cmp(x, y)*ref.Cmp(x, y)), 0), 0, xs, ys)
		}
	}
	unary := func(c ref.Ctx, x ref.Num) {
		xs := show(x)
		r, f := c.Sqrt(x)
		out("sqrt", c, r, f, xs)
		r, f = c.Reduce(x)
		out("normalize", c, r, f, xs)
		r, f = c.Next(x, true)
		out("next_plus", c, r, f, xs)
		r, f = c.Next(x, false)
		out("next_minus", c, r, f, xs)
		r, f = c.Fix(x)
		out("fix", c, r, f, xs)
		for _, e := range []int{-30, -20, -3, -2, -1, 0, 1, 2, 5, 17} {
			r, f = c.Quantize(x, e)
			out("quantize", c, r, f, xs, fmt.Sprint(e))
		}
	}
	var rs []ref.Round
	for r := ref.HalfEven; r <= ref.HalfDown; r++ {
		rs = append(rs, r)
	}
	for _, p := range []int{1, 2, 3} {
		for _, lim := range [][2]int{{999, -999}, {2, -1}, {3, -3}} {
			for _, r := range rs {
				c := ref.Ctx{Prec: p, Emax: lim[0], Emin: lim[1], R: r}
				for i, x := range small {
					unary(c, x)
					for j, y := range small {
						// every pair in one mode, a fixed third elsewhere
						if r == ref.HalfEven || (i+j)%3 == int(r)%3 {
							binary(c, x, y)
						}
					}
				}
			}
		}
	}
	for _, p := range []int{7, 16, 19, 20, 34} {
		for _, lim := range [][2]int{{384, -383}, {25, -18}} {
			for _, r := range rs {
				c := ref.Ctx{Prec: p, Emax: lim[0], Emin: lim[1], R: r}
				for i, x := range big {
					unary(c, x)
					for j, y := range big {
						if (i+j)%3 == int(r)%3 {
							binary(c, x, y)
						}
					}
				}
			}
		}
	}
	for _, p := range []int{1, 2, 5, 16, 21} {
		for _, r := range rs {
			c := ref.Ctx{Prec: p, Emax: 60, Emin: -60, R: r}
			for i := 0; i < len(big); i += 3 {
				for j := 1; j < len(big); j += 5 {
					for k := 0; k < len(small); k += 7 {
						r, f := c.FMA(big[i], big[j], small[k])
						out("fma", c, r, f, show(big[i]), show(big[j]), show(small[k]))
					}
				}
			}
		}
	}
	// elementary functions: libmpdec rounds exp, ln and log10 correctly
	for _, p := range []int{1, 2, 5, 16, 30} {
		c := ref.Ctx{Prec: p, Emax: 9999999, Emin: -9999999, R: ref.HalfEven}
		for i := int64(1); i <= 400; i++ {
			for _, e := range []int{-40, -5, -2, -1, 0, 3, 30} {
				x := ref.FinInt(false, i, e)
				for _, fn := range []string{"Exp", "Log", "Log10"} {
					if fn == "Exp" && e > 3 || fn != "Exp" && i == 1 {
						continue
					}
					n := ref.Fn(fn, x, ref.Num{}, p+12).Num()
					r, _ := c.Fix(n)
					out(map[string]string{"Exp": "exp", "Log": "ln", "Log10": "log10"}[fn], c, r, 0, show(x))
				}
			}
		}
	}
}
