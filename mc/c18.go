package main

import (
	"math/big"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// C18: square roots and adjacent numbers.

func exploreC18(w *Worker) {
	vx, vu := variantOpds(w.Thorough())
	sweepVariants(w, vx, vu, limited(variantCxs()), "Sqrt", "NextPlus", "NextMinus")
	// (a) every small coefficient
	n := 1100
	precs := []int{1, 2, 3, 4, 5, 16}
	if w.Thorough() {
		n, precs = 12000, []int{0, 1, 2, 3, 4, 5, 6, 7, 9, 16, 19, 20, 34}
	}
	xs := opds(ints(0, n), []int{-3, -2, -1, 0, 1}, false, true)
	xs = append(xs, opds(ints(0, 20), []int{-3, 0, 1}, true, false)...)
	sweepUnary(w, xs, cxs(precs, 0, 0, []ref.Round{ref.HalfEven, ref.Up, ref.Floor}), "Sqrt")
	// (b) perfect squares, squares of half-way numbers, and their neighbours
	var roots []*big.Int
	for _, s := range bigCoefs(w.Thorough()) {
		r, _ := new(big.Int).SetString(s, 10)
		roots = append(roots, r)
	}
	for i := int64(1); i < 1000; i += 3 {
		roots = append(roots, big.NewInt(i), big.NewInt(i*1000003), new(big.Int).Mul(big.NewInt(i), ref.Pow10(17)))
	}
	var sq []*Opd
	for _, r := range roots {
		h := new(big.Int).Mul(r, big.NewInt(10))
		h.Add(h, big.NewInt(5)) // r and a half
		for _, v := range []*big.Int{r, h} {
			s := new(big.Int).Mul(v, v)
			for d := int64(-1); d <= 1; d++ {
				c := new(big.Int).Add(s, big.NewInt(d))
				if c.Sign() < 0 {
					continue
				}
				for _, e := range []int{-41, -20, -1, 0, 3} {
					sq = append(sq, newOpd(ref.Num{K: ref.Fin, C: c, E: e}, 0))
				}
			}
		}
	}
	ps := []int{1, 2, 3, 7, 15, 16, 17, 18, 19, 20, 21, 34, 39}
	sweepUnary(w, sq, cxs(ps, 0, 0, []ref.Round{ref.HalfEven, ref.Ceiling}), "Sqrt")
	// with unlimited precision, the exact roots
	ul := mkCx(decimal.UnlimitedPrecision, 0, 0, ref.HalfEven)
	for i, x := range sq {
		if i%64 == 0 {
			w.skip = !w.Block()
		}
		if w.skip || x.N.IsZero() {
			continue
		}
		c, e := x.N.C, x.N.E
		if e&1 != 0 {
			c = new(big.Int).Mul(c, big.NewInt(10))
		}
		w.State()
		w.Do(&Case{Op: "Sqrt", C: ul, X: x})
	}
	// (c) bounded and default exponent ranges, also for the neighbours
	type rg struct{ emax, emin int }
	var cx []*Cx
	for _, g := range []rg{{2, -1}, {3, -3}, {6, -6}, {1, -2}} {
		cx = append(cx, cxs([]int{1, 2, 3, 4}, g.emax, g.emin, allRounds)...)
	}
	coefs := append(ints(0, 130), "199", "200", "500", "949", "950", "989", "990", "994", "995", "998", "999", "1000", "1001", "1009", "1010", "1999", "9949", "9950", "9989", "9990", "9994", "9995", "9998", "9999", "10000", "10001", "99999", "100000", "100001")
	us := opds(coefs, rng(-12, 7), true, true)
	sweepUnary(w, us, cx, "Sqrt", "NextPlus", "NextMinus")
	var lx []*Cx
	for _, p := range []int{1, 2, 3, 5, 9, 15, 16, 17, 18, 19, 20, 21, 34, 38, 39, 40} {
		lx = append(lx, cxs([]int{p}, 0, 0, []ref.Round{ref.HalfEven, ref.Down})...)
		lx = append(lx, cxs([]int{p}, 40, -40, []ref.Round{ref.HalfEven, ref.Up})...)
	}
	bs := opds(dedup(append(append([]string{}, smallCoefs...), bigCoefs(w.Thorough())...)), []int{-82, -80, -79, -61, -60, -59, -41, -40, -39, -38, -22, -21, -20, -19, -18, -17, -16, -2, -1, 0, 1, 2, 16, 19, 20, 21, 22, 38, 39, 40, 41}, true, true)
	sweepUnary(w, bs, lx, "NextPlus", "NextMinus", "Sqrt")
	// long roots and squares
	var ls []*Opd
	for _, s := range longCoefs(w.Thorough()) {
		r, _ := new(big.Int).SetString(s, 10)
		if len(s) > 700 && !w.Thorough() {
			continue
		}
		q := new(big.Int).Mul(r, r)
		for d := int64(-1); d <= 1; d++ {
			for _, e := range []int{-1301, -100, 0, 7} {
				ls = append(ls, newOpd(ref.Num{K: ref.Fin, C: new(big.Int).Add(q, big.NewInt(d)), E: e}, 0))
			}
		}
	}
	sweepUnary(w, ls, cxs([]int{16, 63, 64, 77, 100, 309, 700}, 0, 0, []ref.Round{ref.HalfEven, ref.Up}), "Sqrt")
	sweepLongUnary(w, "Sqrt", "NextPlus", "NextMinus")
	const m = decimal.MaxScale
	hs := opds([]string{"0", "1", "2", "4", "5", "9", "10", "99", "100", "9999999999999999", "99999999999999995", "18446744073709551615", "18446744073709551616", "123456789012345678901234567"}, []int{-m - 40, -m - 20, -m - 16, -m - 15, -m - 14, -m - 1, -m, -m + 1, -m + 15, -m / 2, -20, 0, 20, m / 2, m - 40, m - 16, m - 15, m - 1, m}, true, false)
	sweepUnary(w, hs, cxs([]int{1, 3, 16, 19, 20}, 0, 0, allRounds), "NextPlus", "NextMinus", "Sqrt")
}

func init() {
	register(&Prop{
		ID:      "C18",
		Check:   withVariants(func(c *Case) string { return checkOp(c, aValue|aFlags) }, aValue|aFlags),
		Explore: exploreC18,
		Bounds: func(tier string) string {
			s := "0..1100 x 5 exponents x 6 precisions"
			if tier == "thorough" {
				s = "0..12000 x 5 exponents x 13 precisions"
			}
			return "square roots of " + s + " x 3 rounding modes; squares of 1100 integers up to 57 digits, squares of the numbers half-way between two integers, and their neighbours (+-1), x 5 exponents x 13 precisions x 2 modes, unlimited precision (exact roots, refused when inexact); roots and both neighbours of 150 signed coefficients x exponents -12..7 in 4 exponent ranges x precisions 1..4 x 7 modes, of the boundary coefficients x 31 exponents x 16 precisions x 2 ranges, and at the library's exponent limits; values and condition flags" + variantBounds
		},
	})
}
