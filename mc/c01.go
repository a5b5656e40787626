package main

import (
	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// Coefficient alphabets -----------------------------------------------------

var smallCoefs = append(ints(0, 21), "24", "25", "26", "44", "45", "49", "50", "51", "54", "55", "75", "89", "94", "95", "96", "98", "99", "100", "101", "104", "105", "110", "145", "149", "150", "151", "155", "199", "250", "445", "499", "500", "501", "555", "949", "950", "951", "994", "995", "996", "999", "1000", "1001", "9949", "9950", "9995", "9999", "10000", "10005", "10050", "99949", "99950", "99999")

func bigCoefs(thorough bool) []string {
	var s []string
	ks := []int{1, 2, 7, 9, 10, 15, 16, 17, 18, 19, 20, 21, 22, 33, 34, 38, 39, 57}
	for _, k := range ks {
		p := pow10s(k)
		s = append(s, p, addS(p, -1), addS(p, 1))
		if k > 14 || thorough {
			s = append(s, "5"+p[1:], "5"+addS(p, 1)[1:], addS("5"+p[1:], -1), "25"+p[2:], "15"+p[2:], "95"+p[2:])
		}
	}
	s = append(s, "0", "1", "2", "3", "5", "7", "9", "4", "6",
		"9223372036854775807", "9223372036854775808", "4294967295", "4294967296",
		"18446744073709551613", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617",
		"36893488147419103230", "36893488147419103232", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "6277101735386680763835789423207666416102355444464034512895", "6277101735386680763835789423207666416102355444464034512896",
		"184467440737095516150", "1844674407370955161", "12345678901234567890", "123456789012345678901234567890", "99999999999999999999999999999999950000")
	return dedup(s)
}

func checkVal(c *Case) string { return checkOp(c, aValue) }
func checkFlg(c *Case) string { return checkOp(c, aFlags) }

// sweepSmall: every pair of small operands, at every tiny context.
func sweepPairs(w *Worker, xs, ys []*Opd, cxs []*Cx, names ...string) {
	for _, x := range xs {
		for _, cx := range cxs {
			if !w.Block() {
				continue
			}
			for _, y := range ys {
				w.State()
				for _, n := range names {
					c := &Case{Op: n, C: cx, X: x, Y: y}
					w.Do(c)
				}
			}
		}
	}
}

func sweepUnary(w *Worker, xs []*Opd, cxs []*Cx, names ...string) {
	for _, cx := range cxs {
		for i, x := range xs {
			if i%64 == 0 && !w.Block() {
				// one block per 64 operands
				w.skip = true
			} else if i%64 == 0 {
				w.skip = false
			}
			if w.skip {
				continue
			}
			w.State()
			for _, n := range names {
				w.Do(&Case{Op: n, C: cx, X: x})
			}
		}
	}
}

func cxs(precs []int, emax, emin int, rs []ref.Round) []*Cx {
	var out []*Cx
	for _, p := range precs {
		for _, r := range rs {
			out = append(out, mkCx(p, emax, emin, r))
		}
	}
	return out
}

// gap exponents: around every threshold the implementation special-cases.
var gapExps = []int{-3100, -400, -60, -41, -40, -39, -22, -21, -20, -19, -18, -17, -16, -10, -2, -1, 0, 1, 2, 5, 10, 16, 17, 18, 19, 20, 21, 40, 60, 400, 3100}

func exploreArith(w *Worker, names []string, fma bool) {
	// (a) small operands, unbounded exponents, precisions 1..4
	sm := opds(smallCoefs[:len(smallCoefs)-4], rng(-2, 2), true, false)
	precs := []int{1, 2, 3, 4}
	if !w.Thorough() {
		sm = opds(smallCoefs[:52], rng(-2, 1), true, false)
		precs = []int{1, 2, 3}
	}
	sweepPairs(w, sm, sm, cxs(precs, 0, 0, allRounds), names...)
	// (b) boundary coefficients x exponent gaps (one side fixed exponent 0)
	bc := bigCoefs(w.Thorough())
	xs := opds(bc, []int{0, -7}, true, false)
	var ge []int
	ge = gapExps
	ys := opds(bc, ge, false, false)
	bp := []int{1, 16, 19, 20, 34}
	if w.Thorough() {
		bp = []int{0, 1, 2, 7, 15, 16, 17, 18, 19, 20, 21, 33, 34, 38, 39, 57}
	} else {
		ys = opds(bc, []int{-400, -40, -21, -20, -19, -16, -1, 0, 1, 19, 20, 40}, false, false)
	}
	rs := []ref.Round{ref.HalfEven, ref.Down, ref.Floor}
	if w.Thorough() {
		rs = allRounds
	}
	sweepPairs(w, xs, ys, cxs(bp, 0, 0, rs), names...)
	if !w.Thorough() {
		// the other rounding modes, with a single precision on either side
		// of the word size
		sweepPairs(w, xs, ys, cxs([]int{16, 20}, 0, 0, []ref.Round{ref.HalfUp, ref.HalfDown, ref.Up, ref.Ceiling}), names...)
	}
	// (c) lossless modes: unlimited precision and the Go operating mode
	var lc []*Cx
	for _, r := range []ref.Round{ref.HalfEven, ref.Floor} {
		lc = append(lc, mkCx(decimal.UnlimitedPrecision, 0, 0, r))
		for _, p := range []int{0, 1, 16} {
			lc = append(lc, mkCx(p, 0, 0, r).goMode())
		}
	}
	sweepPairs(w, xs, ys, lc, names...)
	if fma {
		f := opds([]string{"0", "1", "2", "5", "9", "10", "15", "45", "95", "99", "4294967296", "9999999999", "10000000000", "18446744073709551615", "18446744073709551616", "100000000000000000000"}, []int{-21, -1, 0, 1, 20}, true, false)
		us := opds([]string{"0", "1", "5", "9", "10", "50", "99", "9999999999999999", "18446744073709551615", "100000000000000000000"}, []int{-40, -2, -1, 0, 1, 3, 40}, true, false)
		cx := append(cxs([]int{1, 2, 3, 16, 20}, 0, 0, rs), mkCx(16, 0, 0, ref.HalfEven).goMode(), mkCx(decimal.UnlimitedPrecision, 0, 0, ref.HalfEven))
		for _, x := range f {
			for _, c := range cx {
				if !w.Block() {
					continue
				}
				for _, y := range f {
					if !w.Thorough() && y.N.Neg {
						continue
					}
					for _, u := range us {
						w.State()
						w.Do(&Case{Op: "FMA", C: c, X: x, Y: y, U: u})
					}
				}
			}
		}
	}
}

// tiny exponent ranges: every operand straddles the overflow, underflow and
// subnormal boundaries of the context.
func exploreRange(w *Worker) {
	coefs := append(ints(0, 12), "15", "19", "20", "25", "45", "49", "50", "51", "55", "85", "89", "90", "94", "95", "96", "98", "99", "100", "101", "105", "110", "149", "150", "151", "500", "949", "950", "951", "994", "995", "996", "999", "1000", "1005", "9949", "9950", "9995", "9999", "99995")
	type rg struct{ emax, emin int }
	rgs := []rg{{2, -1}, {3, -3}}
	precs := []int{1, 2, 3, 5} // 5 digits: integers beyond the largest number
	exps := rng(-7, 4)
	if w.Thorough() {
		rgs = append(rgs, rg{1, -2}, rg{4, -1}, rg{6, -6})
		precs = append(precs, 4)
		exps = rng(-11, 7)
	} else {
		coefs = coefs[:0]
		coefs = append(ints(0, 11), "15", "19", "25", "49", "50", "51", "95", "99", "100", "101", "150", "949", "950", "995", "999", "1000", "9995", "9999")
	}
	xs := opds(coefs, exps, true, false)
	ys := opds(coefs, exps, true, false)
	if !w.Thorough() {
		ys = opds([]string{"0", "1", "2", "3", "5", "7", "9", "10", "11", "49", "50", "95", "99", "100", "995", "999"}, []int{-7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3}, true, false)
	}
	var cx []*Cx
	for _, g := range rgs {
		cx = append(cx, cxs(precs, g.emax, g.emin, allRounds)...)
	}
	sweepPairs(w, xs, ys, cx, "Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "QuoRem")
	// quantize targets across and beyond the representable exponents
	for _, c := range cx {
		for _, n := range rng(-6, 10) {
			if !w.Block() {
				continue
			}
			for _, x := range xs {
				w.State()
				w.Do(&Case{Op: "Quantize", C: c, X: x, N: n})
			}
		}
	}
	ucoefs := append(append([]string{}, smallCoefs...), bigCoefs(false)...)
	us := opds(dedup(ucoefs), append(rng(-16, 8), -60, -40, -38, -36, -34, -22, -20, -19, -18, 20, 40), true, false)
	ucx := cx
	for _, p := range []int{16, 19, 20, 34} {
		for _, g := range []rg{{2, -1}, {20, -19}, {40, -40}, {384, -383}} {
			ucx = append(ucx, cxs([]int{p}, g.emax, g.emin, allRounds)...)
		}
	}
	sweepUnary(w, us, ucx, "Set", "Round", "Abs", "Neg", "Reduce", "Sqrt")
	// coefficients beyond one machine word at the range boundaries
	bs := opds([]string{"1", "5", "9999999999999999999", "10000000000000000000", "18446744073709551615", "18446744073709551616", "99999999999999999999", "99999999999999999995", "100000000000000000000", "999999999999999999999999", "123456789012345678901234567"}, []int{-45, -44, -40, -39, -38, -27, -26, -25, -24, -23, -21, -20, -19, -18, -2, -1, 0, 1, 2, 13, 18, 19, 20}, true, false)
	var bcx []*Cx
	for _, p := range []int{3, 19, 20, 25} {
		bcx = append(bcx, cxs([]int{p}, 20, -19, allRounds)...)
	}
	sweepPairs(w, bs, bs, bcx, "Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "QuoRem")
	// fused multiply-add
	f := opds([]string{"0", "1", "5", "9", "10", "15", "95", "99"}, []int{-3, -2, -1, 0, 1, 2}, true, false)
	uu := opds([]string{"0", "1", "5", "9", "50", "99", "101"}, []int{-7, -5, -4, -3, 0, 2, 3}, true, false)
	for _, x := range f {
		for _, c := range cx {
			if !w.Block() {
				continue
			}
			for _, y := range f {
				if y.N.Neg {
					continue
				}
				for _, u := range uu {
					w.State()
					w.Do(&Case{Op: "FMA", C: c, X: x, Y: y, U: u})
				}
			}
		}
	}
}

// exploreHuge covers the default exponent limits, +-999999999999999999.
func exploreHuge(w *Worker) {
	const m = decimal.MaxScale
	exps := []int{-m - 40, -m - 20, -m - 19, -m - 15, -m - 1, -m, -m + 1, -m + 15, -m / 2, -m/2 - 1, -m / 3, -20, -1, 0, 1, 19, m/2 - 1, m / 2, m/2 + 1, m - 40, m - 20, m - 17, m - 16, m - 15, m - 1, m}
	cs := []string{"0", "1", "5", "99", "9999999999999999", "99999999999999995", "18446744073709551616", "123456789012345678901234567"}
	rs := []ref.Round{ref.HalfEven, ref.Up, ref.Floor}
	if w.Thorough() {
		cs = append(cs, "2", "3", "15", "100", "10000000000000000", "18446744073709551615", "99999999999999999999")
		exps = append(exps, -m-2, -m-16, -m+16, m-2, m-19, -40, 40)
		rs = allRounds
	}
	xs := opds(cs, exps, true, true)
	ys := opds(cs, exps, false, true)
	var cx []*Cx
	for _, p := range []int{1, 3, 16, 20} {
		cx = append(cx, cxs([]int{p}, 0, 0, rs)...)
	}
	sweepPairs(w, xs, ys, cx, "Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "QuoRem")
	sweepUnary(w, xs, cx, "Set", "Round", "Abs", "Neg", "Reduce", "Sqrt", "RoundToInt", "Floor", "Ceil")
	f := opds([]string{"1", "99", "18446744073709551616"}, []int{-m, -m / 2, 0, m / 2, m}, true, false)
	for _, c := range cx {
		if !w.Block() {
			continue
		}
		for _, x := range f {
			for _, y := range f {
				for _, u := range f {
					w.State()
					w.Do(&Case{Op: "FMA", C: c, X: x, Y: y, U: u})
				}
			}
		}
	}
	for _, c := range cx {
		for _, n := range []int{-m, -m + 1, -m + 20, -1, 0, 1, m - 1, m, m + 2, m + 15} {
			if !w.Block() {
				continue
			}
			for _, x := range xs {
				w.State()
				w.Do(&Case{Op: "Quantize", C: c, X: x, N: n})
			}
		}
	}
}

// unary rescaling operations, unbounded range
func exploreUnary(w *Worker) {
	coefs := dedup(append(append([]string{}, smallCoefs...), bigCoefs(true)...))
	if w.Thorough() {
		coefs = dedup(append(ints(0, 2100), coefs...))
	}
	us := opds(coefs, append(rng(-8, 3), -60, -58, -41, -40, -39, -38, -35, -34, -33, -24, -23, -22, -21, -20, -19, -18, -17, -16, -15, 17, 20), true, true)
	precs := []int{1, 2, 3, 4, 16, 19, 20, 34}
	if w.Thorough() {
		precs = []int{0, 1, 2, 3, 4, 5, 7, 15, 16, 17, 18, 19, 20, 21, 34, 38, 57, 60}
	}
	cx := cxs(precs, 0, 0, allRounds)
	cx = append(cx, cxs([]int{decimal.UnlimitedPrecision}, 0, 0, allRounds)...)
	sweepUnary(w, us, cx, "Set", "Round", "Abs", "Neg", "Reduce", "RoundToInt", "Floor", "Ceil")
	var gc []*Cx
	for _, r := range allRounds {
		gc = append(gc, mkCx(16, 0, 0, r).goMode(), mkCx(2, 0, 0, r).goMode())
	}
	sweepUnary(w, us, gc, "Set", "Abs", "Neg", "RoundToInt", "Floor", "Ceil")
	for _, c := range append(append([]*Cx{}, cxs([]int{2}, 0, 0, allRounds)...), gc...) {
		for _, n := range []int{-1 << 62, -1, 0, 1, 2, 3, 5, 15, 19, 20, 21, 40} {
			if !w.Block() {
				continue
			}
			for _, x := range us {
				w.State()
				w.Do(&Case{Op: "RoundN", C: c, X: x, N: n})
			}
		}
	}
	ns := []int{-40, -21, -20, -19, -3, -2, -1, 0, 1, 2, 3, 7, 16, 17, 18, 19, 20, 21, 22, 34, 39, 40, 60}
	qc := append(append([]*Cx{}, cx...), gc...)
	for _, c := range qc {
		for _, n := range ns {
			if !w.Block() {
				continue
			}
			for _, x := range us {
				w.State()
				w.Do(&Case{Op: "Quantize", C: c, X: x, N: n})
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "C01",
		Bounds: func(tier string) string {
			return boundsArith(tier) + variantBounds + "; FMA over 16x5 signed multiplicands, 10x7 signed addends; exact sums over 18 exponent gaps up to 250001"
		},
		Check: withVariants(checkVal, aValue),
		Explore: func(w *Worker) {
			vx, vu := variantOpds(w.Thorough())
			sweepVariants(w, vx, vu, variantCxs(), "Add", "Sub", "Mul", "FMA")
			exploreArith(w, []string{"Add", "Sub", "Mul"}, true)
			sweepLong(w, "Add", "Sub", "Mul")
			// exact sums across exponent gaps beyond every table of powers
			xs := opds([]string{"1", "7", "18446744073709551615", "18446744073709551616"}, []int{0}, true, false)
			ys := opds([]string{"1", "9", "10", "18446744073709551616"}, []int{-250001, -131072, -100001, -100000, -5121, -5120, -5119, -319, -21, 20, 79, 80, 641, 5120, 10239, 100000, 100001, 131072}, false, false)
			sweepPairs(w, xs, ys, append(cxs([]int{decimal.UnlimitedPrecision, 100000}, 0, 0, []ref.Round{ref.HalfEven}), mkCx(9, 0, 0, ref.Up).goMode()), "Add", "Sub")
		},
	})
	register(&Prop{
		ID:     "C02",
		Bounds: func(tier string) string { return boundsArith(tier) + variantBounds },
		Check:  withVariants(checkVal, aValue),
		Explore: func(w *Worker) {
			vx, vu := variantOpds(w.Thorough())
			sweepVariants(w, vx, vu, limited(variantCxs()), "Quo")
			exploreArith(w, []string{"Quo"}, false)
			sweepLong(w, "Quo")
		},
	})
	register(&Prop{
		ID:     "C03",
		Bounds: func(tier string) string { return boundsArith(tier) + variantBounds },
		Check:  withVariants(checkC03, aValue),
		Explore: func(w *Worker) {
			vx, vu := variantOpds(w.Thorough())
			sweepVariants(w, vx, vu, variantCxs(), "QuoInt", "Rem", "QuoRem")
			exploreArith(w, []string{"QuoInt", "Rem", "QuoRem"}, false)
			sweepLong(w, "QuoInt", "Rem", "QuoRem")
			const m = decimal.MaxScale
			xs := opds([]string{"0", "1", "7", "99", "18446744073709551615", "18446744073709551616", "123456789012345678901234567"}, []int{-m - 10, -m, -m + 3, -m / 2, -200, -1, 0, 1, 200, m / 2, m - 30, m - 3, m}, true, true)
			sweepPairs(w, xs, xs, cxs([]int{1, 3, 16, 20, 40}, 0, 0, []ref.Round{ref.HalfEven, ref.Up}), "QuoInt", "Rem", "QuoRem")
		},
	})
	register(&Prop{
		ID:     "C04",
		Bounds: func(tier string) string { return boundsUnary(tier) + variantBounds },
		Check:  withVariants(checkVal, aValue),
		Explore: func(w *Worker) {
			vx, vu := variantOpds(w.Thorough())
			sweepVariants(w, vx, vu, variantCxs(), "Set", "Abs", "Neg", "Round", "Reduce", "Quantize", "RoundToInt", "Floor", "Ceil")
			exploreUnary(w)
			sweepLongUnary(w, "Set", "Abs", "Neg", "Round", "Reduce", "RoundToInt", "Floor", "Ceil")
			lx := opds(longCoefs(w.Thorough()), []int{-1000, -309, -77, 0, 20}, true, false)
			for _, cx := range longCxs(w.Thorough()) {
				for _, n := range []int{-1000, -999, -308, -100, -76, -10, 0, 20, 400} {
					if !w.Block() {
						continue
					}
					for _, x := range lx {
						w.State()
						w.Do(&Case{Op: "Quantize", C: cx, X: x, N: n})
					}
				}
			}
		},
	})
	register(&Prop{
		ID: "C05",
		Bounds: func(tier string) string {
			return boundsRange(tier) + variantBounds + "; results not rounded to a precision but confined to the exponent range: 16 operations over 450 signed operands and special values, unlimited precision and Go mode, 3 exponent ranges x 7 rounding modes; the default precision with 3 exponent ranges and the default limits, 14 operations over all pairs of 7 signed coefficients x 28 exponents"
		},
		Check: withVariants(func(c *Case) string {
			if c.Op == "QuoRem" {
				return checkC03(c)
			}
			return checkOp(c, aValue|aFlags)
		}, aValue|aFlags),
		Explore: func(w *Worker) {
			xs := opds([]string{"0", "1", "5", "15", "95", "99", "100", "995", "9999"}, []int{-5, -4, -3, -1, 0, 1, 2, 3}, true, true)
			us := opds([]string{"0", "1", "95"}, []int{-4, 0, 2}, true, true)
			cx := []*Cx{mkCx(2, 3, -3, ref.HalfEven), mkCx(1, 2, -1, ref.Up), mkCx(3, 3, -2, ref.Floor)}
			sweepVariants(w, xs, us, cx, "Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "QuoRem", "FMA")
			sweepVariants(w, xs, us, cx, "Set", "Abs", "Neg", "Round", "Reduce", "Quantize", "Sqrt", "NextPlus", "NextMinus")
			// exact, but within the limits: unlimited precision, Go mode
			var ux []*Cx
			for _, r := range allRounds {
				for _, g := range [][2]int{{3, -3}, {1, -2}, {20, -19}} {
					ux = append(ux, mkCx(decimal.UnlimitedPrecision, g[0], g[1], r), mkCx(2, g[0], g[1], r).goMode())
				}
			}
			ws := opds([]string{"0", "1", "5", "99", "100", "9999", "18446744073709551616"}, []int{-24, -23, -20, -19, -18, -5, -3, -2, 0, 1, 2, 3, 4, 17, 20, 21}, true, true)
			sweepPairs(w, ws, ws, ux, "Add", "Sub", "Mul", "QuoInt", "Rem", "QuoRem")
			sweepUnary(w, ws, ux, "Set", "Round", "Abs", "Neg", "Reduce", "RoundToInt", "Floor", "Ceil", "Sqrt")
			for _, n := range []int{-21, -4, -3, -1, 0, 1, 3, 4, 20, 25} {
				for _, c := range ux {
					if !w.Block() {
						continue
					}
					for _, x := range ws {
						w.State()
						w.Do(&Case{Op: "Quantize", C: c, X: x, N: n})
					}
				}
			}
			// the default precision, with limits
			var dx []*Cx
			for _, r := range allRounds {
				for _, g := range [][2]int{{3, -3}, {20, -19}, {99, -99}} {
					dx = append(dx, mkCx(0, g[0], g[1], r))
				}
			}
			for _, r := range []ref.Round{ref.HalfEven, ref.Up} {
				dx = append(dx, mkCx(0, 0, 0, r))
			}
			const m = decimal.MaxScale
			dn := opds([]string{"0", "1", "5", "15", "9999999999999999", "99999999999999995", "18446744073709551616"}, []int{-m - 16, -m - 15, -m, -115, -114, -99, -60, -50, -36, -35, -34, -20, -19, -18, -3, -2, -1, 0, 2, 3, 4, 5, 6, 20, 50, 84, 99, m - 15}, true, true)
			sweepPairs(w, dn, dn, dx, "Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "QuoRem")
			sweepUnary(w, dn, dx, "Set", "Round", "Abs", "Neg", "Reduce", "Sqrt", "NextPlus", "NextMinus")
			for _, n := range []int{-115, -114, -35, -34, -19, -18, -3, 0, 1, 3, 20, 84} {
				for _, c := range dx {
					if !w.Block() {
						continue
					}
					for _, x := range dn {
						w.State()
						w.Do(&Case{Op: "Quantize", C: c, X: x, N: n})
					}
				}
			}
			// long numbers against limits of their size
			var gx []*Cx
			for _, r := range allRounds {
				gx = append(gx, mkCx(77, 400, -400, r), mkCx(310, 310, -309, r), mkCx(16, 999, -999, r))
			}
			sweepUnary(w, opds(longCoefs(w.Thorough()), []int{-1701, -1300, -1010, -709, -618, -476, -400, -310, -77, 0, 1, 91, 300, 324, 700}, true, false), gx, "Set", "Round", "Neg", "Reduce", "Sqrt", "NextPlus", "NextMinus")
			gs := opds(longCoefs(false), []int{-500, -300, -100, 0, 100}, true, false)
			sweepPairs(w, gs, opds(longMates, []int{-700, -300, 0, 300}, false, false), gx, "Add", "Mul", "Quo", "QuoRem")
			exploreRange(w)
			exploreHuge(w)
		},
	})
}

func boundsArith(tier string) string {
	if tier == "thorough" {
		return "all pairs of the signed small-coefficient alphabet (0..21, every carry and half-way neighbour up to 9950) x exponents -2..2 x precisions 1..4 x 7 rounding modes; all pairs of the boundary coefficients (10^k, 10^k+-1, 5*10^k.. for k up to 57, 2^31..2^128 neighbours) x 31 exponent gaps up to 3100 x 16 precisions x 7 rounding modes; the same pairs in the Go mode and with unlimited precision"
	}
	return "all pairs of 52 signed small coefficients x exponents -2..1 x precisions 1..3 x 7 rounding modes; all pairs of the boundary coefficients (10^k, 10^k+-1, 5*10^k.. for k up to 57, 2^31..2^128 neighbours) x 12 exponent gaps up to 400 x precisions 1,16,19,20,34 x 3 rounding modes and 16,20 x the other 4; the same pairs in the Go mode and with unlimited precision"
}

func boundsUnary(tier string) string {
	if tier == "thorough" {
		return "all of 0..2100 and the boundary coefficients, signed, x 33 exponents and all special values x 18 precisions and unlimited x 7 rounding modes x every operation; Quantize to 23 target scales; Go mode at precisions 2 and 16"
	}
	return "small and boundary coefficients, signed, x 33 exponents and all special values x 8 precisions and unlimited x 7 rounding modes x every operation; Quantize to 23 target scales; Go mode at precisions 2 and 16"
}

func boundsRange(tier string) string {
	return "every pair of operands whose exponents lie within and beyond the contexts with 1, 2, 3 and 5 digits and exponent limits (2,-1), (3,-3) (thorough: also (1,-2), (4,-1), (6,-6), 4 digits), 7 rounding modes, Add/Sub/Mul/Quo/QuoInt/Rem/QuoRem/FMA; unary operations additionally for precisions 16..34 with limits up to 384; coefficients beyond one machine word against limits (20,-19); values and condition flags; and the default limits: all pairs of 8 signed coefficients (and specials) x 26 exponents from 40 below the smallest to the largest, 4 precisions, 3 (thorough 7) rounding modes, all operations"
}

// variantCxs are the contexts of the variants.
func variantCxs() []*Cx {
	return []*Cx{mkCx(3, 0, 0, ref.HalfEven), mkCx(0, 0, 0, ref.Up), mkCx(25, 0, 0, ref.Floor), mkCx(5, 0, 0, ref.HalfEven).goMode(), mkCx(decimal.UnlimitedPrecision, 0, 0, ref.HalfEven)}
}

// limited drops the contexts of unlimited precision.
func limited(cs []*Cx) (out []*Cx) {
	for _, c := range cs {
		if c.Prec != decimal.UnlimitedPrecision {
			out = append(out, c)
		}
	}
	return out
}
