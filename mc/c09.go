package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"unsafe"

	"github.com/ericlagergren/decimal"
	dmath "github.com/ericlagergren/decimal/math"
	"github.com/ericlagergren/decimal/misc"

	"verif/mc/ref"
)

// A transition applies one public method to registers of a small machine whose
// registers are live library objects with their own contexts.
type hop struct {
	name    string
	arity   int
	inPlace bool
	n       int
	run     call
	model   func(c *Case) (ref.Num, ref.Cond)
	two     bool
	isSet   bool // copies NaNs instead of computing with them
}

func hopList(set string) []*hop {
	var hs []*hop
	arith := func(name string, n int) {
		o := ops[name]
		m := methods[name]
		var run call
		switch name {
		case "Sqrt":
			run = func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return dmath.Sqrt(z, x) }
		case "Floor":
			run = func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return dmath.Floor(z, x) }
		case "Ceil":
			run = func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return dmath.Ceil(z, x) }
		case "NextPlus":
			run = func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return misc.NextPlus(z, x) }
		case "NextMinus":
			run = func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return misc.NextMinus(z, x) }
		case "RoundN":
			run = func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return z.Round(c.N) }
		default:
			run = func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return m(z, c, x, y, u) }
		}
		hs = append(hs, &hop{name: name, arity: o.arity, inPlace: o.inPlace, n: n, run: run, model: o.model, isSet: name == "Set" || name == "RoundN"})
	}
	plain := func(name string, arity int, run func(z, x, y *decimal.Big) *decimal.Big, model func(x, y ref.Num) ref.Num) {
		hs = append(hs, &hop{name: name, arity: arity, isSet: true,
			run:   func(c *Case, z, r, x, y, u *decimal.Big) *decimal.Big { return run(z, x, y) },
			model: func(c *Case) (ref.Num, ref.Cond) { return model(nopd(c.X), nopd(c.Y)), 0 }})
	}
	for _, n := range []string{"Add", "Sub", "Mul", "Quo", "QuoInt", "Rem", "Set", "Abs", "Neg", "Reduce", "RoundToInt"} {
		arith(n, 0)
	}
	arith("Quantize", 1)
	plain("Copy", 1, func(z, x, y *decimal.Big) *decimal.Big { return z.Copy(x) }, func(x, y ref.Num) ref.Num { return x })
	plain("CopyNeg", 1, func(z, x, y *decimal.Big) *decimal.Big { return z.CopyNeg(x) }, func(x, y ref.Num) ref.Num { return ref.Negate(x) })
	if set == "short" {
		return hs
	}
	for _, n := range []string{"Sqrt", "NextPlus", "NextMinus", "Floor", "Ceil"} {
		arith(n, 0)
	}
	arith("Quantize", -1)
	arith("RoundN", 1)
	plain("CopyAbs", 1, func(z, x, y *decimal.Big) *decimal.Big { return z.CopyAbs(x) }, func(x, y ref.Num) ref.Num { return ref.Abs(x) })
	plain("CopySign", 2, func(z, x, y *decimal.Big) *decimal.Big { return z.CopySign(x, y) }, func(x, y ref.Num) ref.Num { x.Neg = y.Neg; return x })
	plain("SetInf", 0, func(z, x, y *decimal.Big) *decimal.Big { return z.SetInf(true) }, func(x, y ref.Num) ref.Num { return ref.Infinity(true) })
	plain("SetNaN", 0, func(z, x, y *decimal.Big) *decimal.Big { return z.SetNaN(true) }, func(x, y ref.Num) ref.Num { return ref.Num{K: ref.SNaN} })
	plain("SetUint64", 0, func(z, x, y *decimal.Big) *decimal.Big { return z.SetUint64(1<<64 - 1) }, func(x, y ref.Num) ref.Num {
		return ref.Num{K: ref.Fin, C: new(big.Int).SetUint64(1<<64 - 1)}
	})
	plain("SetMantScale", 0, func(z, x, y *decimal.Big) *decimal.Big { return z.SetMantScale(-7, 1) }, func(x, y ref.Num) ref.Num { return ref.FinInt(true, 7, -1) })
	if set == "fma" {
		arith("FMA", 0)
	}
	return hs
}

// step is one transition: the operation and the registers it names.
type step struct {
	h          *hop
	z, x, y, u int
}

func (s step) String() string {
	return fmt.Sprintf("%s/%d:%d%d%d%d", s.h.name, s.h.n, s.z, s.x, s.y, s.u)
}

func steps(hs []*hop, regs int) []step {
	var out []step
	for _, h := range hs {
		for z := 0; z < regs; z++ {
			switch {
			case h.inPlace || h.arity == 0:
				out = append(out, step{h, z, z, z, z})
			case h.arity == 1:
				for x := 0; x < regs; x++ {
					out = append(out, step{h, z, x, x, x})
				}
			case h.arity == 2:
				for x := 0; x < regs; x++ {
					for y := 0; y < regs; y++ {
						out = append(out, step{h, z, x, y, y})
					}
				}
			case h.arity == 3:
				for x := 0; x < regs; x++ {
					for y := 0; y < regs; y++ {
						for u := 0; u < regs; u++ {
							out = append(out, step{h, z, x, y, u})
						}
					}
				}
			}
		}
	}
	return out
}

// machine is a configuration: the contexts of the registers.
type machine struct {
	cx     []*Cx
	sticky bool // conditions accumulate and are part of the state
	steps  []step
	set    string
	long   bool // numbers of any length are followed
}

type mstate struct {
	r    []decimal.Big
	from int32 // index of the predecessor
	by   int16 // step taken
}

func cloneRegs(dst, src []decimal.Big) {
	for i := range src {
		dst[i] = src[i]
		_, u := decimal.Raw(&dst[i])
		_, s := decimal.Raw(&src[i])
		b := s.Bits()
		if cap(b) == 0 {
			*u = big.Int{}
			continue
		}
		nb := make([]big.Word, len(b), cap(b))
		copy(nb[:cap(nb)], b[:cap(b)])
		*u = big.Int{}
		u.SetBits(nb)
		if s.Sign() < 0 {
			u.Neg(u)
		}
	}
}

// key identifies a state: values, representations, conditions and how much
// storage an unused coefficient still holds.
func (m *machine) key(r []decimal.Big, buf []byte) []byte {
	buf = buf[:0]
	for i := range r {
		z := &r[i]
		c, u := decimal.Raw(z)
		k := byte(0)
		switch {
		case z.IsNaN(+1):
			k = 1
		case z.IsNaN(-1):
			k = 2
		case z.IsInf(0):
			k = 3
		}
		if z.Signbit() {
			k |= 4
		}
		w := u.Bits()
		st := len(w)
		if st > 3 {
			st = 3
		}
		k |= byte(st) << 4
		buf = append(buf, k)
		if k&3 == 0 {
			v := *c
			buf = append(buf, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
			e := uint64(z.Scale())
			buf = append(buf, byte(e), byte(e>>8), byte(e>>16), byte(e>>24), byte(e>>32), byte(e>>40), byte(e>>48), byte(e>>56))
			if v == inflated {
				for _, x := range w {
					buf = append(buf, byte(x), byte(x>>8), byte(x>>16), byte(x>>24), byte(x>>32), byte(x>>40), byte(x>>48), byte(x>>56))
				}
			}
		}
		if m.sticky {
			f := uint32(z.Context.Conditions)
			buf = append(buf, byte(f), byte(f>>8))
		}
		buf = append(buf, 0xff)
	}
	return buf
}

// extent is the memory a coefficient can reach.
func extent(z *decimal.Big) (lo, hi uintptr) {
	_, u := decimal.Raw(z)
	b := u.Bits()
	if cap(b) == 0 {
		return 0, 0
	}
	b = b[:cap(b)]
	lo = uintptr(unsafe.Pointer(&b[0]))
	return lo, lo + uintptr(cap(b))*unsafe.Sizeof(b[0])
}

// apply executes step s on the registers and compares with the reference
// transition.  dead: the history ends here (a Go mode panic).
func (m *machine) apply(r []decimal.Big, s step, nums []ref.Num) (msg string, dead bool) {
	c := &Case{Op: s.h.name, C: m.cx[s.z], X: &Opd{N: nums[s.x]}, Y: &Opd{N: nums[s.y]}, U: &Opd{N: nums[s.u]}, N: s.h.n}
	if s.h.inPlace {
		c.X = &Opd{N: nums[s.z]}
	}
	unl := c.C.Prec == decimal.UnlimitedPrecision
	if (unl || c.C.Go) && (s.h.name == "Sqrt" || strings.HasPrefix(s.h.name, "Next")) || s.h.name == "Quo" && unl && nums[s.y].K == ref.Inf {
		return "", true // not specified
	}
	want, wf := s.h.model(c)
	switch s.h.name {
	case "RoundToInt", "Floor", "Ceil":
		if c.C.Emax != 0 && want.K == ref.Fin && want.C.Sign() != 0 && want.Adj() > c.C.M.Emax {
			return "", true // an integer outside the exponent range is not specified
		}
	}
	z := &r[s.z]
	prior := z.Context.Conditions
	ctx := z.Context
	var others [4][]byte
	for i := range r {
		if i != s.z {
			others[i] = m.key(r[i:i+1], nil)
		}
	}
	nanPanic := c.C.Go && want.IsNaN() && !s.h.isSet
	got, p := runStep(s, c, r)
	if p != nil {
		if _, ok := p.(decimal.ErrNaN); ok && nanPanic {
			return "", true
		}
		return fmt.Sprintf("panic: %v", p), true
	}
	if nanPanic {
		return fmt.Sprintf("panic: none in the Go mode, result %s", show(z)), true
	}
	if got != z {
		return "result: the returned pointer is not the receiver", true
	}
	n := numOf(z)
	if !ref.Same(n, want) {
		return fmt.Sprintf("value: got %s want %s", n, want), true
	}
	if t := canonical(z); t != "" {
		return t, true
	}
	if f := condOf(z.Context.Conditions); f != wf|condOf(prior) {
		return fmt.Sprintf("conditions: got %s want %s after %s (result %s)", f, wf|condOf(prior), condOf(prior), n), true
	}
	after := z.Context
	after.Conditions = ctx.Conditions
	if after != ctx {
		return fmt.Sprintf("context: changed to %+v", after), true
	}
	lo, hi := extent(z)
	for i := range r {
		if i == s.z {
			continue
		}
		if k := m.key(r[i:i+1], nil); string(k) != string(others[i]) {
			return fmt.Sprintf("register %d changed to %s", i, show(&r[i])), true
		}
		if l, h := extent(&r[i]); l < hi && lo < h {
			return fmt.Sprintf("registers %d and %d share storage", i, s.z), true
		}
	}
	if !m.sticky {
		z.Context.Conditions = 0
	}
	if m.long {
		return "", n.K == ref.Fin && (ref.Digits(n.C) > 4000 || n.E > 4000 || n.E < -4000)
	}
	return "", n.K == ref.Fin && (ref.Digits(n.C) > 120 || n.E > 400 || n.E < -400)
}

func runStep(s step, c *Case, r []decimal.Big) (got *decimal.Big, p interface{}) {
	defer func() { p = recover() }()
	got = s.h.run(c, &r[s.z], nil, &r[s.x], &r[s.y], &r[s.u])
	return
}

func (m *machine) nums(r []decimal.Big, nums []ref.Num) {
	for i := range r {
		nums[i] = numOf(&r[i])
	}
}

// explore visits every state reachable from init within depth transitions
// (depth < 0: until no new state is found), starting with the transitions for
// which first holds.
func (m *machine) explore(w *Worker, init []*Opd, depth int, first func(int) bool) []mstate {
	regs := len(m.cx)
	var all []mstate
	seen := map[string]struct{}{}
	start := mstate{r: make([]decimal.Big, regs), from: -1}
	for i, o := range init {
		b := o.fresh()
		b.Context = m.cx[i].D
		cloneRegs(start.r[i:i+1], []decimal.Big{*b})
	}
	var kb []byte
	kb = m.key(start.r, kb)
	seen[string(kb)] = struct{}{}
	all = append(all, start)
	w.states++
	level := []int32{0}
	tmp := make([]decimal.Big, regs)
	nums := make([]ref.Num, regs)
	for d := 0; (depth < 0 || d < depth) && len(level) > 0; d++ {
		var next []int32
		last := depth >= 0 && d == depth-1
		for _, si := range level {
			m.nums(all[si].r, nums)
			for k, s := range m.steps {
				if d == 0 && !first(k) {
					continue
				}
				cloneRegs(tmp, all[si].r)
				w.cases++
				if w.cases&1023 == 0 {
					w.beat(nil)
				}
				m.nums(all[si].r, nums)
				msg, dead := m.apply(tmp, s, nums)
				if msg != "" {
					w.fail(m.history(all, si, k, init), msg)
					continue
				}
				if dead || last {
					continue
				}
				kb = m.key(tmp, kb)
				if _, ok := seen[string(kb)]; ok {
					continue
				}
				seen[string(kb)] = struct{}{}
				w.states++
				nr := make([]decimal.Big, regs)
				copy(nr, tmp)
				for i := range tmp {
					tmp[i] = decimal.Big{}
				}
				all = append(all, mstate{r: nr, from: si, by: int16(k)})
				next = append(next, int32(len(all)-1))
			}
			if w.nviol > 2000 {
				return all
			}
		}
		level = next
		if d > 40 {
			w.Stat("depth limit reached", 1)
			break
		}
	}
	return all
}

// history rebuilds the path to a violating transition as a replayable case.
func (m *machine) history(all []mstate, si int32, k int, init []*Opd) *Case {
	var names []string
	names = append(names, m.steps[k].String())
	for i := si; all[i].from >= 0; i = all[i].from {
		names = append(names, m.steps[all[i].by].String())
	}
	for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
		names[i], names[j] = names[j], names[i]
	}
	var in, cs []string
	for i, o := range init {
		in = append(in, o.String())
		cs = append(cs, m.cx[i].String())
	}
	st := 0
	if m.sticky {
		st = 1
	}
	return &Case{Op: "history", S: strings.Join(names, " "), T: strings.Join(in, ",") + "|" + strings.Join(cs, ",") + "|" + m.set, N: st}
}

// checkC09 replays a history from its initial registers without cloning.
func checkC09(c *Case) string {
	parts := strings.Split(c.T, "|")
	if len(parts) != 3 {
		return "bad case"
	}
	m := &machine{sticky: c.N == 1, set: parts[2]}
	for _, s := range strings.Split(parts[1], ",") {
		cx, err := parseCx(s)
		if err != nil {
			return err.Error()
		}
		m.cx = append(m.cx, cx)
	}
	m.steps = steps(hopList(m.set), len(m.cx))
	byName := map[string]step{}
	for _, s := range m.steps {
		byName[s.String()] = s
	}
	r := make([]decimal.Big, len(m.cx))
	for i, s := range strings.Split(parts[0], ",") {
		o, err := parseOpd(s)
		if err != nil {
			return err.Error()
		}
		b := o.fresh()
		b.Context = m.cx[i].D
		cloneRegs(r[i:i+1], []decimal.Big{*b})
	}
	nums := make([]ref.Num, len(r))
	for i, s := range strings.Fields(c.S) {
		m.nums(r, nums)
		msg, _ := m.apply(r, byName[s], nums)
		if msg != "" {
			return "step " + strconv.Itoa(i) + " " + s + " " + msg
		}
	}
	return ""
}

func exploreC09(w *Worker) {
	th := w.Thorough()
	always := func(int) bool { return true }
	// (a) complete state spaces: contexts small enough for every reachable
	// state of two (three) registers to be visited
	type cfg struct{ p, emax, emin int }
	cfgs := []cfg{{1, 1, -1}, {1, 2, -1}}
	if th {
		cfgs = append(cfgs, cfg{1, 2, -2}, cfg{1, 3, -1})
	}
	starts := [][]string{{"3E0", "7E0"}, {"18446744073709551616E0", "9E-1"}}
	full := steps(hopList("full"), 2)
	for _, g := range cfgs {
		for i, r := range allRounds {
			for _, st := range starts {
				if !w.Block() {
					continue
				}
				// the second register has another rounding mode
				m := &machine{cx: []*Cx{mkCx(g.p, g.emax, g.emin, r), mkCx(g.p, g.emax, g.emin, allRounds[(i+3)%7])}, steps: full, set: "full"}
				m.explore(w, mustOpds(st...), -1, always)
			}
		}
	}
	if th {
		fma := steps(hopList("fma"), 2)
		for _, r := range allRounds {
			if w.Block() {
				m := &machine{cx: []*Cx{mkCx(1, 1, -1, r), mkCx(1, 1, -1, ref.HalfEven)}, steps: fma, set: "fma"}
				m.explore(w, mustOpds("3E0", "18446744073709551616E0"), -1, always)
			}
		}
	}
	// (b) all histories up to a depth from representative values, sticky
	// conditions, registers with different contexts
	depth := 3
	if th {
		depth = 4
	}
	mixes := [][]*Cx{
		{mkCx(16, 0, 0, ref.HalfEven), mkCx(20, 0, 0, ref.Up)},
		{mkCx(3, 0, 0, ref.HalfEven), mkCx(25, 0, 0, ref.Floor)},
		{mkCx(0, 0, 0, ref.HalfEven).goMode(), mkCx(0, 0, 0, ref.HalfEven).goMode()},
		{mkCx(2, 3, -3, ref.HalfUp), mkCx(19, 20, -20, ref.Down)},
		{mkCx(decimal.UnlimitedPrecision, 0, 0, ref.HalfEven), mkCx(5, 0, 0, ref.Ceiling)},
	}
	inits := [][]string{{"18446744073709551615E0", "-1E-1"}, {"123456789012345678901234567890E-10", "7E0"}, {"0E-3", "-25E1"}, {"99999E-5", "18446744073709551616E-19"}}
	for _, mx := range mixes {
		m := &machine{cx: mx, sticky: true, steps: full, set: "full"}
		for _, in := range inits {
			for b := 0; b < len(full); b += 4 {
				if w.Block() {
					m.explore(w, mustOpds(in...), depth, func(k int) bool { return k >= b && k < b+4 })
				}
			}
		}
	}
	// (c) histories over numbers of hundreds of digits
	rep := func(s string, n int) string { return strings.Repeat(s, n/len(s)+1)[:n] }
	longs := [][]string{
		{rep("1234567890", 400) + "E-100", "-" + rep("9", 160) + "E0"},
		{pow10s(700) + "E0", rep("7", 77) + "E-77"},
		{"-" + rep("9876543210", 1300) + "E-650", "5E0"},
	}
	longCx := [][]*Cx{
		{mkCx(1500, 0, 0, ref.HalfEven), mkCx(300, 0, 0, ref.Down)},
		{mkCx(77, 0, 0, ref.Up), mkCx(1000, 0, 0, ref.HalfEven).goMode()},
	}
	ldepth := 2
	if th {
		ldepth = 3
	}
	for _, mx := range longCx {
		m := &machine{cx: mx, sticky: true, steps: full, set: "full", long: true}
		for _, in := range longs {
			for b := 0; b < len(full); b += 16 {
				if w.Block() {
					m.explore(w, mustOpds(in...), ldepth, func(k int) bool { return k >= b && k < b+16 })
				}
			}
		}
	}
	short := steps(hopList("short"), 3)
	if th {
		short = steps(hopList("fma"), 3)
	}
	for _, mx := range mixes {
		m := &machine{cx: append(append([]*Cx{}, mx...), mx[0]), sticky: true, steps: short, set: "short"}
		if th {
			m.set = "fma"
		}
		for _, in := range inits[:2] {
			for b := 0; b < len(short); b += 8 {
				if w.Block() {
					m.explore(w, mustOpds(append(append([]string{}, in...), "5E0")...), 3, func(k int) bool { return k >= b && k < b+8 })
				}
			}
		}
	}
}

func mustOpds(ss ...string) []*Opd {
	var out []*Opd
	for _, s := range ss {
		o, err := parseOpd(s)
		if err != nil {
			panic(err)
		}
		out = append(out, o)
	}
	return out
}

func init() {
	register(&Prop{ID: "C09", Check: checkC09, Explore: exploreC09, Bounds: func(tier string) string {
		d, x := "3", ""
		if tier == "thorough" {
			d, x = "4", "; the same with FMA (1 digit, exponents -1..1)"
		}
		return "complete reachable state space (values, representations, stale storage) of two registers under 27 methods with every register assignment, for 1-digit contexts with exponent limits (1,-1) and (2,-1) (thorough: (2,-2) and (3,-1), too) x 7 pairs of rounding modes x 2 starts; every history of " + d + " steps over two registers and 3 steps over three registers (14 methods, thorough 28) with sticky conditions, from 4 starting pairs in 5 mixed contexts including the Go mode and unlimited precision" + x
	}})
}
