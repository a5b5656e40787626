package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/mc/ref"
)

// C19: reading numbers from streams (fmt.Scanner) under every chunking and
// every fault position, and through JSON documents.

var errFault = errors.New("injected read fault")

// faultReader delivers s in chunks and fails (or ends) at position at.
type faultReader struct {
	s     string
	pos   int
	chunk int
	at    int  // -1: no fault
	both  bool // deliver the last bytes together with the error
	err   error
}

func (f *faultReader) Read(p []byte) (int, error) {
	end := len(f.s)
	err := io.EOF
	if f.at >= 0 && f.at <= end {
		end, err = f.at, f.err
	}
	if f.pos >= end {
		return 0, err
	}
	n := end - f.pos
	if n > f.chunk {
		n = f.chunk
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, f.s[f.pos:f.pos+n])
	f.pos += n
	if f.both && f.pos == end {
		return n, err
	}
	return n, nil
}

func numChar(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '+' || c == '-' || c == '.'
}

// nextToken is the model of one scan: it skips spaces (newlines, too, when nl)
// and takes the longest run of characters numbers are made of.
func nextToken(s string, pos int, nl bool) (tok string, next int) {
	for pos < len(s) && (s[pos] == ' ' || nl && s[pos] == '\n') {
		pos++
	}
	st := pos
	for pos < len(s) && numChar(s[pos]) {
		pos++
	}
	return s[st:pos], pos
}

// checkToken judges a scanned receiver.
func checkToken(tok string, z *decimal.Big, err error) string {
	if tok == "" {
		if err == nil {
			return fmt.Sprintf("empty: no error without a number, result %s", describe(z))
		}
		return ""
	}
	if m := checkParse(tok, expectText(tok), z, err != nil); m != "" {
		return fmt.Sprintf("token %q: %s", tok, m)
	}
	return ""
}

func checkC19(c *Case) string {
	switch c.Op {
	case "stream":
		return checkStream(c)
	case "scanf":
		return checkScanf(c)
	case "json":
		return checkJSON(c)
	case "rawjson":
		return checkRawJSON(c)
	}
	return "unknown op"
}

// checkStream scans up to three numbers from one stream.  N: chunk size, M:
// fault position (-1 none), T: reader kind, Alias: fault kind.
func checkStream(c *Case) string {
	f := &faultReader{s: c.S, chunk: c.N, at: c.M, err: errFault}
	switch c.Alias {
	case "both":
		f.both = true
	case "unexpected":
		f.err = io.ErrUnexpectedEOF
	}
	avail := c.S
	if c.M >= 0 && c.M <= len(c.S) {
		avail = c.S[:c.M]
	}
	faulty := c.M >= 0 && c.M <= len(c.S)
	var r io.Reader = f
	var br *bufio.Reader
	if c.T == "rune" {
		br = bufio.NewReaderSize(f, 16)
		r = br
	}
	pos := 0
	for k := 0; k < 3; k++ {
		z := dirtyZ((c.Dirty + k) % 6)
		n, err := fmt.Fscan(r, z)
		tok, next := nextToken(avail, pos, true)
		if (n == 1) != (err == nil) {
			return fmt.Sprintf("count: %d with error %v", n, err)
		}
		if faulty && next == len(avail) {
			// The fault came before the end of the number was seen.
			if err == nil {
				return fmt.Sprintf("fault: %s accepted although reading failed at %d", describe(z), c.M)
			}
			if !errors.Is(err, f.err) && !(f.err == io.ErrUnexpectedEOF && errors.Is(err, io.ErrUnexpectedEOF)) {
				return fmt.Sprintf("fault: reported as %v", err)
			}
			return ""
		}
		if m := checkToken(tok, z, err); m != "" {
			return m
		}
		if err != nil {
			return ""
		}
		if br == nil {
			// without UnreadRune the rune after the number is lost
			if f.pos > next+1 && c.N == 1 {
				return fmt.Sprintf("overread: %d bytes consumed, the number ends at %d", f.pos, next)
			}
			if next < len(avail) && avail[next] != ' ' && avail[next] != '\n' {
				return ""
			}
			pos = next
			continue
		}
		// the next byte is the one after the number
		pos = next
		b, e := br.ReadByte()
		if next < len(avail) {
			if e != nil || b != avail[next] {
				return fmt.Sprintf("position: after %q the next byte is %q (%v), want %q", tok, b, e, avail[next])
			}
			br.UnreadByte()
		} else if e == nil {
			return fmt.Sprintf("position: %q left after the end", b)
		}
	}
	return ""
}

func checkScanf(c *Case) string {
	a, b := dirtyZ(c.Dirty), dirtyZ((c.Dirty+1)%6)
	switch c.T {
	case "sscan", "sscanln":
		var n int
		var err error
		nl := c.T == "sscan"
		if nl {
			n, err = fmt.Sscan(c.S, a, b)
		} else {
			n, err = fmt.Sscanln(c.S, a, b)
		}
		t1, p1 := nextToken(c.S, 0, nl)
		t2, p2 := nextToken(c.S, p1, nl)
		e1, e2 := error(nil), error(nil)
		if n < 1 {
			e1 = err
		}
		if n < 2 {
			e2 = err
		}
		if m := checkToken(t1, a, e1); m != "" {
			return m
		}
		if t1 == "" || e1 != nil {
			return ""
		}
		if p1 == p2 || p2 > p1 && numChar(c.S[p1]) || t2 == "" {
			if err == nil {
				return fmt.Sprintf("second: no error without a number, %s", describe(b))
			}
			return ""
		}
		return checkToken(t2, b, e2)
	case "comma":
		n, err := fmt.Sscanf(c.S, "%v,%v", a, b)
		i := strings.IndexByte(c.S, ',')
		if i < 0 {
			if n == 2 {
				return "comma: two numbers without a comma"
			}
			return ""
		}
		t1, p1 := nextToken(c.S, 0, false)
		if t1 == "" || p1 != i {
			if n == 2 {
				return "comma: two numbers"
			}
			return ""
		}
		var e1 error
		if n < 1 {
			e1 = err
		}
		if m := checkToken(t1, a, e1); m != "" {
			return m
		}
		if e1 != nil {
			return ""
		}
		t2, _ := nextToken(c.S, p1+1, false)
		var e2 error
		if n < 2 {
			e2 = err
		}
		return checkToken(t2, b, e2)
	}
	return "unknown form"
}

func checkJSON(c *Case) string {
	type doc struct {
		A *decimal.Big
		B decimal.Big
		L []decimal.Big
		M map[string]*decimal.Big
	}
	var d doc
	d.A, d.B, d.L, d.M = c.X.fresh(), *c.X.fresh(), []decimal.Big{*c.Y.fresh(), *c.X.fresh()}, map[string]*decimal.Big{"k": c.Y.fresh()}
	s, err := json.Marshal(&d)
	if err != nil {
		return "Marshal: " + err.Error()
	}
	var e doc
	if c.Dirty > 0 {
		e.A, e.B = dirtyZ(c.Dirty), *dirtyZ(c.Dirty)
		e.L = []decimal.Big{*dirtyZ(1), *dirtyZ(2), *dirtyZ(3)}
	}
	if err := json.Unmarshal(s, &e); err != nil {
		return "Unmarshal: " + err.Error() + " " + clip(string(s))
	}
	if len(e.L) != 2 || e.M["k"] == nil || e.A == nil {
		return "shape: " + clip(string(s))
	}
	for i, p := range []struct {
		got *decimal.Big
		o   *Opd
	}{{e.A, c.X}, {&e.B, c.X}, {&e.L[0], c.Y}, {&e.L[1], c.X}, {e.M["k"], c.Y}} {
		if !sameBig(p.got, p.o) {
			return fmt.Sprintf("value: member %d is %s want %s", i, numOf(p.got), p.o)
		}
		if m := canonical(p.got); m != "" {
			return m
		}
	}
	// bare JSON numbers
	if c.X.N.K == 0 {
		t, _ := c.X.B.MarshalText()
		var z decimal.Big
		if err := json.Unmarshal(t, &z); err != nil || !sameBig(&z, c.X) {
			return fmt.Sprintf("bare: %s read as %s (%v)", t, numOf(&z), err)
		}
	}
	return ""
}

// checkRawJSON: UnmarshalJSON called with a bare or quoted number, and with one
// that lacks a quote, which must not be taken for a number.
func checkRawJSON(c *Case) string {
	want, ok := new(decimal.Big).SetString(c.S)
	for i, s := range []string{c.S, `"` + c.S + `"`, `"` + c.S, c.S + `"`} {
		z := dirtyZ(c.Dirty)
		err := z.UnmarshalJSON([]byte(s))
		if ok && i < 2 {
			if err != nil || !ref.Same(numOf(z), numOf(want)) || canonical(z) != "" {
				return fmt.Sprintf("raw: %s read as %s (%v)", s, numOf(z), err)
			}
		} else if err == nil && !numOf(z).IsNaN() {
			return fmt.Sprintf("raw: %s read as %s", s, numOf(z))
		}
	}
	return ""
}

func exploreC19(w *Worker) {
	max, long := 5, 7
	if w.Thorough() {
		max, long = 6, 8
	}
	i := 0
	// every short stream, every chunk size, every fault position
	strs(w, "1 0.e-\n,Na", max, func(s string) {
		i++
		for _, t := range []string{"plain", "rune"} {
			for _, ch := range []int{1, 2, 64} {
				w.Do(&Case{Op: "stream", S: s, N: ch, M: -1, T: t, Dirty: i % 6})
				for at := 0; at <= len(s); at++ {
					for _, al := range []string{"", "both", "unexpected"} {
						w.Do(&Case{Op: "stream", S: s, N: ch, M: at, T: t, Dirty: i % 6, Alias: al})
					}
				}
			}
		}
		for _, t := range []string{"sscan", "sscanln", "comma"} {
			w.Do(&Case{Op: "scanf", S: s, T: t, Dirty: i % 6})
		}
	})
	strs(w, "1 .-\n", long, func(s string) {
		i++
		w.Do(&Case{Op: "stream", S: s, N: 1 + i%3, M: -1, T: "rune", Dirty: i % 6})
		for _, t := range []string{"sscan", "sscanln"} {
			w.Do(&Case{Op: "scanf", S: s, T: t, Dirty: i % 6})
		}
	})
	// long numbers: every chunk size and fault position
	for _, s := range []string{"18446744073709551615 -18446744073709551616\n1", "-0.00000000000000000000000000012e-40 inf", "-Infinity snan123 1", "NaN99 -nan 3", "12345678901234567890123456789012345678901234567890e999 2 3", "1e99999999999999999999 -1e-99999999999999999999 x"} {
		for at := -1; at <= len(s); at++ {
			if !w.Block() {
				continue
			}
			w.State()
			for ch := 1; ch <= 40; ch++ {
				for _, t := range []string{"plain", "rune"} {
					for _, al := range []string{"", "both", "unexpected"} {
						for dd := 0; dd < 6; dd++ {
							w.Do(&Case{Op: "stream", S: s, N: ch, M: at, T: t, Dirty: dd, Alias: al})
						}
					}
				}
			}
		}
	}
	// JSON values
	strs(w, "1 0.e-,Na", 5, func(s string) {
		i++
		w.Do(&Case{Op: "rawjson", S: s, Dirty: i % 6})
	})
	for _, s := range []string{"null", "-0", "+7", "Infinity", "-inf", "sNaN12", "18446744073709551615", "-184467440737095516160.5e-30", "1e400"} {
		if w.Block() {
			for d := 0; d < 6; d++ {
				w.Do(&Case{Op: "rawjson", S: s, Dirty: d})
			}
		}
	}
	// JSON documents
	os := opds(dedup(append(ints(0, 12), "99", "100", "18446744073709551614", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890", addS(pow10s(40), 0))), []int{-40, -8, -7, -6, -2, -1, 0, 1, 2, 5, 20, 40, -maxScale, maxScale - 50}, true, false)
	for _, n := range specialOpds() {
		os = append(os, n)
	}
	for _, x := range os {
		if !w.Block() {
			continue
		}
		w.State()
		for j, y := range os {
			w.Do(&Case{Op: "json", X: x, Y: y, Dirty: j % 6})
		}
	}
}

func init() {
	register(&Prop{
		ID:        "C19",
		Technique: "explicit-state enumeration with fault injection",
		Bounds: func(t string) string {
			m, l := 5, 7
			if t == "thorough" {
				m, l = 6, 8
			}
			return fmt.Sprintf("every stream of up to %d characters over ten and up to %d over five, plus six streams of long numbers, read number by number under chunk sizes 1, 2 and all (long: 1..40), a read fault at every byte position (three fault forms) and two reader kinds; Sscan, Sscanln and Sscanf on the same texts; JSON documents of every pair of 260 values in five positions over six receivers", m, l)
		},
		Explore: exploreC19,
		Check:   checkC19,
		Assumptions: []string{
			"The token of a scan is the longest run of letters, digits, signs and points after leading spaces.",
			"A plain reader (without UnreadRune) may lose the rune after a number, as package fmt documents.",
		},
	})
}
