package ref

import (
	"math/big"
	"strconv"
	"strings"
)

// ParseText reads a numeric string by the specification's grammar:
//
//	[sign] digits ['.' [digits]] [('e'|'E') [sign] digits]
//	[sign] '.' digits [exponent]
//	[sign] ('inf' | 'infinity')
//	[sign] ['q'|'s'] 'nan' [digits]
//
// case-insensitively.  ok is false for any other text.
func ParseText(s string) (n Num, payload string, ok bool) {
	if s != "" && (s[0] == '+' || s[0] == '-') {
		n.Neg = s[0] == '-'
		s = s[1:]
	}
	l := strings.ToLower(s)
	switch {
	case l == "inf", l == "infinity":
		n.K = Inf
		return n, "", true
	case strings.HasPrefix(l, "nan"), strings.HasPrefix(l, "qnan"), strings.HasPrefix(l, "snan"):
		n.K = QNaN
		if l[0] == 's' {
			n.K = SNaN
		}
		if l[0] != 'n' {
			l = l[1:]
		}
		l = l[3:]
		if !allDigits(l) {
			return n, "", false
		}
		return n, l, true
	}
	mant, exp := l, ""
	if i := strings.IndexByte(l, 'e'); i >= 0 {
		mant, exp = l[:i], l[i+1:]
		if exp != "" && (exp[0] == '+' || exp[0] == '-') {
			if !allDigits(exp[1:]) || exp[1:] == "" {
				return n, "", false
			}
		} else if exp == "" || !allDigits(exp) {
			return n, "", false
		}
	}
	frac := 0
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		frac = len(mant) - i - 1
		mant = mant[:i] + mant[i+1:]
	}
	if mant == "" || !allDigits(mant) {
		return n, "", false
	}
	n.C, _ = new(big.Int).SetString(mant, 10)
	if exp != "" {
		e, err := strconv.ParseInt(exp, 10, 64)
		if err != nil || e > 1<<62 || e < -1<<62 {
			// far outside any exponent range
			e = 1 << 62
			if exp[0] == '-' {
				e = -e
			}
		}
		n.E = int(e)
	}
	n.E -= frac
	return n, "", true
}

func allDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// Text is to-scientific-string.
func Text(n Num) string {
	s := ""
	if n.Neg {
		s = "-"
	}
	switch n.K {
	case Inf:
		return s + "Infinity"
	case QNaN:
		return s + "NaN"
	case SNaN:
		return s + "sNaN"
	}
	d := n.C.String()
	adj := n.E + len(d) - 1
	if n.E <= 0 && adj >= -6 {
		return s + Plain(d, n.E)
	}
	return s + Sci(d, adj, "E")
}

// Sci is d in scientific notation with the adjusted exponent adj.
func Sci(d string, adj int, e string) string {
	s := d[:1]
	if len(d) > 1 {
		s += "." + d[1:]
	}
	s += e
	if adj < 0 {
		s += "-"
		adj = -adj
	} else {
		s += "+"
	}
	return s + strconv.Itoa(adj)
}

// Plain is d x 10^e without exponent.
func Plain(d string, e int) string {
	if e >= 0 {
		if d == "0" {
			return d
		}
		return d + strings.Repeat("0", e)
	}
	if len(d) > -e {
		return d[:len(d)+e] + "." + d[len(d)+e:]
	}
	return "0." + strings.Repeat("0", -e-len(d)) + d
}

// Shr discards n decimal digits of c, rounding.
func Shr(r Round, neg bool, c *big.Int, n int) *big.Int {
	q, _ := shr(r, neg, c, n)
	return q
}
