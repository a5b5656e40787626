package main

import (
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// Numbers of 64 to 1300 digits: beyond every size at which an implementation
// may change its representation or its algorithm.

// longProps are the properties that include them.
var longProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C08": true, "C10": true, "C11": true, "C12": true, "C13": true, "C14": true, "C18": true}

const longBounds = "; coefficients of 64..1300 digits (12 lengths x 8 shapes)"

func longCoefs(thorough bool) []string {
	ks := []int{64, 77, 78, 100, 128, 155, 256, 309, 400, 617, 1000, 1300}
	if thorough {
		ks = append(ks, 65, 76, 79, 96, 97, 154, 156, 231, 308, 310, 500, 616, 618, 999, 1233, 1234)
	}
	var s []string
	for _, k := range ks {
		p := pow10s(k - 1)
		s = append(s, p, addS(p, 1), strings.Repeat("9", k), "5"+p[1:], "5"+addS(p, 1)[1:], addS("5"+p[1:], -1),
			strings.Repeat("1234567890", k/10+1)[:k],
			new(big.Int).Lsh(big.NewInt(1), uint(k*3)).String())
	}
	return dedup(s)
}

// shorter partners for the long ones.
var longMates = []string{"0", "1", "3", "7", "10", "99", "500", "18446744073709551615", "18446744073709551616", "99999999999999999999999999999999"}

func longCxs(thorough bool) []*Cx {
	rs := []ref.Round{ref.HalfEven, ref.Up}
	ps := []int{16, 77, 310, 1000}
	if thorough {
		rs = allRounds
		ps = []int{1, 16, 20, 63, 64, 65, 77, 100, 155, 310, 617, 1000, 1299}
	}
	return append(cxs(ps, 0, 0, rs), mkCx(16, 0, 0, ref.Floor).goMode())
}

// sweepLong: the binary operations over every pair of long numbers, and of a
// long and a short one.
func sweepLong(w *Worker, names ...string) {
	co := longCoefs(w.Thorough())
	xs := opds(co, []int{0}, true, false)
	ys := opds(co, []int{-300, 0, 77}, false, false)
	ms := opds(longMates, []int{-700, -20, 0, 300}, true, false)
	cx := longCxs(w.Thorough())
	if !w.Thorough() {
		short := ys[:0]
		for i, y := range ys {
			if i%7 != 3 && i%3 != 1 { // two of three exponents, most shapes
				short = append(short, y)
			}
		}
		ys = short
	}
	sweepPairs(w, xs, ys, cx, names...)
	sweepPairs(w, xs, ms, cx, names...)
	sweepPairs(w, ms, xs, cx, names...)
}

// sweepLongUnary: the unary operations over the long numbers.
func sweepLongUnary(w *Worker, names ...string) {
	xs := opds(longCoefs(w.Thorough()), []int{-1301, -1300, -999, -400, -310, -309, -78, -77, -64, -1, 0, 1, 40}, true, false)
	var cx []*Cx
	for _, r := range allRounds {
		cx = append(cx, cxs([]int{1, 16, 63, 77, 78, 310, 616, 999}, 0, 0, []ref.Round{r})...)
	}
	unl := false
	for _, n := range names {
		if n == "Sqrt" {
			unl = true
		}
	}
	if !unl {
		cx = append(cx, mkCx(decimal.UnlimitedPrecision, 0, 0, ref.HalfEven), mkCx(16, 0, 0, ref.Floor).goMode())
	}
	sweepUnary(w, xs, cx, names...)
}
