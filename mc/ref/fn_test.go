package ref

import (
	"math"
	"strconv"
	"testing"
)

func TestFn(t *testing.T) {
	f := map[string]func(x float64) float64{"Exp": math.Exp, "Log": math.Log, "Log10": math.Log10, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Atan": math.Atan, "Asin": math.Asin, "Acos": math.Acos}
	for n, g := range f {
		for _, s := range []string{"1E-10", "0.1", "0.5", "0.7", "0.99", "1", "1.5", "2", "3", "10", "100.25", "123456", "1E10", "600"} {
			x, _, _ := ParseText(s)
			v, _ := strconv.ParseFloat(s, 64)
			w := g(v)
			if math.IsNaN(w) || math.IsInf(w, 0) {
				continue
			}
			for _, ng := range []bool{false, true} {
				if ng {
					if n == "Log" || n == "Log10" {
						continue
					}
					x.Neg = true
					w = g(-v)
				}
				r := Fn(n, x, Num{}, 30)
				rv, _ := strconv.ParseFloat(r.Num().String(), 64)
				if math.Abs(rv-w) > 1e-13*math.Abs(w) {
					t.Error(n, s, ng, rv, w)
				}
			}
		}
	}
	for _, p := range [][2]string{{"2", "0.5"}, {"2", "10"}, {"0.3", "-7.25"}, {"1E-5", "3.5"}, {"1.0001", "12345.5"}, {"7", "-3"}, {"12", "100"}} {
		x, _, _ := ParseText(p[0])
		y, _, _ := ParseText(p[1])
		a, _ := strconv.ParseFloat(p[0], 64)
		b, _ := strconv.ParseFloat(p[1], 64)
		r := Fn("Pow", x, y, 30)
		rv, _ := strconv.ParseFloat(r.Num().String(), 64)
		w := math.Pow(a, b)
		if math.Abs(rv-w) > 1e-12*w {
			t.Error(p, rv, w)
		}
		r = Fn("Hypot", x, y, 30)
		rv, _ = strconv.ParseFloat(r.Num().String(), 64)
		w = math.Hypot(a, b)
		if math.Abs(rv-w) > 1e-13*w {
			t.Error(p, rv, w)
		}
		for _, s := range [][2]bool{{false, false}, {false, true}, {true, false}, {true, true}} {
			x.Neg, y.Neg = s[0], s[1]
			a, b := math.Abs(a), math.Abs(b)
			if s[0] {
				a = -a
			}
			if s[1] {
				b = -b
			}
			r = Fn("Atan2", x, y, 30)
			rv, _ = strconv.ParseFloat(r.Num().String(), 64)
			w = math.Atan2(a, b)
			if math.Abs(rv-w) > 1e-13*math.Abs(w) {
				t.Error("atan2", a, b, rv, w)
			}
		}
	}
}
