package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Case is one explored execution, serialisable so that a violation can be
// replayed on its own.
type Case struct {
	Op    string `json:"op"`
	C     *Cx    `json:"-"`
	X     *Opd   `json:"-"`
	Y     *Opd   `json:"-"`
	U     *Opd   `json:"-"`
	N     int    `json:"n,omitempty"`
	M     int    `json:"m,omitempty"`
	S     string `json:"s,omitempty"`
	T     string `json:"t,omitempty"`
	Alias string `json:"alias,omitempty"`
	Dirty int    `json:"dirty,omitempty"`
	Ctx   string `json:"ctx,omitempty"`
	XS    string `json:"x,omitempty"`
	YS    string `json:"y,omitempty"`
	US    string `json:"u,omitempty"`
}

func (c Case) flat() Case {
	if c.C != nil {
		c.Ctx = c.C.String()
	}
	c.XS, c.YS, c.US = c.X.String(), c.Y.String(), c.U.String()
	return c
}

func (c Case) key() string {
	b, _ := json.Marshal(c.flat())
	return string(b)
}

func parseCase(b []byte) (*Case, error) {
	c := new(Case)
	if err := json.Unmarshal(b, c); err != nil {
		return nil, err
	}
	var err error
	if c.Ctx != "" {
		if c.C, err = parseCx(c.Ctx); err != nil {
			return nil, err
		}
	}
	for _, p := range []struct {
		s string
		o **Opd
	}{{c.XS, &c.X}, {c.YS, &c.Y}, {c.US, &c.U}} {
		if p.s != "" {
			if *p.o, err = parseOpd(p.s); err != nil {
				return nil, err
			}
		}
	}
	return c, nil
}

// Prop is one property's machinery.
type Prop struct {
	ID        string
	Technique string
	Bounds    func(tier string) string
	// Explore enumerates the bounded space.
	Explore func(w *Worker)
	// Check executes one case on the real code and returns a description of
	// the deviation ("" when the property holds).
	Check       func(c *Case) string
	Assumptions []string
	// Main replaces the sharded exploration for properties that drive
	// external processes (the controlled scheduler).
	Main func(m *Master)
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if longProps[p.ID] {
		b := p.Bounds
		p.Bounds = func(tier string) string { return b(tier) + longBounds }
	}
	props[p.ID] = p
}

// Worker explores one shard.
type Worker struct {
	p         *Prop
	tier      string
	shard, n  int
	block     int64
	only      int64
	trace     bool
	cases     int64
	states    int64
	traces    int64
	start     time.Time
	cur       atomic.Value // *Case
	tick      int64
	stats     map[string]int64
	distinct  map[uint64]struct{}
	out       *bufio.Writer
	mu        sync.Mutex
	nviol     int
	perSig    map[string]int
	blockFile *os.File
	hangLimit time.Duration
	skip      bool
}

// Thorough reports the tier.
func (w *Worker) Thorough() bool { return w.tier == "thorough" }

// Block starts a new unit of work and reports whether this shard owns it.
func (w *Worker) Block() bool {
	b := w.block
	w.block++
	if w.only >= 0 {
		return b == w.only
	}
	if int(b%int64(w.n)) != w.shard {
		return false
	}
	w.traces++
	if w.blockFile != nil {
		w.blockFile.WriteAt([]byte(fmt.Sprintf("%-20d", b)), 0)
	}
	return true
}

type violMsg struct {
	Kind   string          `json:"kind"`
	Case   json.RawMessage `json:"case,omitempty"`
	Msg    string          `json:"msg,omitempty"`
	Sig    string          `json:"sig,omitempty"`
	Stats  map[string]int64
	Cases  int64
	States int64
	Traces int64
}

func (w *Worker) emit(m violMsg) {
	w.mu.Lock()
	b, _ := json.Marshal(m)
	w.out.Write(b)
	w.out.WriteByte('\n')
	w.out.Flush()
	w.mu.Unlock()
}

// Stat adds to a named coverage counter.
func (w *Worker) Stat(name string, n int64) { w.stats[name] += n }

// State counts one configuration (operands, context, prior state) from which
// operations are explored.
func (w *Worker) State() { w.states++ }

// Do checks one case.
func (w *Worker) Do(c *Case) {
	w.cases++
	if w.cases&(w.cases-1) == 0 && w.cases >= 1<<10 && w.cases <= 1<<18 {
		w.emit(violMsg{Kind: "sample", Case: json.RawMessage(c.key())})
	}
	atomic.AddInt64(&w.tick, 1)
	w.cur.Store(c)
	if w.trace {
		w.emit(violMsg{Kind: "trace", Case: json.RawMessage(c.key())})
	}
	if msg := safeCheck(w.p, c); msg != "" {
		w.fail(c, msg)
	}
}

// beat tells the watchdog that the exploration is alive.
func (w *Worker) beat(c *Case) {
	atomic.AddInt64(&w.tick, 1)
	if c != nil {
		w.cur.Store(c)
	}
}

func (w *Worker) fail(c *Case, msg string) {
	sig := c.Op + "|" + sigOf(msg)
	w.nviol++
	w.perSig[sig]++
	if w.perSig[sig] <= 400 {
		w.emit(violMsg{Kind: "viol", Case: json.RawMessage(c.key()), Msg: msg, Sig: sig})
	}
}

// sigOf groups deviations for display only.
func sigOf(msg string) string {
	if i := strings.IndexByte(msg, ':'); i > 0 {
		return msg[:i]
	}
	return msg
}

func safeCheck(p *Prop, c *Case) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			// keep the frames that matter
			var fr []string
			for _, l := range strings.Split(st, "\n") {
				if strings.HasPrefix(l, "github.com/ericlagergren") || strings.HasPrefix(l, "math/big") {
					if i := strings.LastIndexByte(l, '('); i > 0 {
						l = l[:i]
					}
					fr = append(fr, l)
				}
				if len(fr) == 4 {
					break
				}
			}
			msg = fmt.Sprintf("panic: %v [%s]", e, strings.Join(fr, " < "))
		}
	}()
	return p.Check(c)
}

func runWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	n := fs.Int("n", 1, "")
	only := fs.Int64("only", -1, "")
	trace := fs.Bool("trace", false, "")
	bf := fs.String("blockfile", "", "")
	fs.Parse(args[1:])
	p := props[args[0]]
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	w := &Worker{p: p, tier: *tier, shard: *shard, n: *n, only: *only, trace: *trace, stats: map[string]int64{}, perSig: map[string]int{}, out: bufio.NewWriter(os.Stdout), start: time.Now(), hangLimit: 90 * time.Second, distinct: map[uint64]struct{}{}}
	if *bf != "" {
		w.blockFile, _ = os.OpenFile(*bf, os.O_CREATE|os.O_RDWR, 0o644)
	}
	go func() {
		last, since := int64(-1), time.Now()
		for range time.Tick(time.Second) {
			t := atomic.LoadInt64(&w.tick)
			if t != last {
				last, since = t, time.Now()
				continue
			}
			if c, _ := w.cur.Load().(*Case); c != nil && time.Since(since) > w.hangLimit {
				w.emit(violMsg{Kind: "viol", Case: json.RawMessage(c.key()), Msg: "hang: no result within 90 s", Sig: c.Op + "|hang"})
				os.Exit(4)
			}
		}
	}()
	p.Explore(w)
	w.Stat("distinct", int64(len(w.distinct)))
	w.emit(violMsg{Kind: "done", Stats: w.stats, Cases: w.cases, States: w.states, Traces: w.traces})
}

// Master runs the workers, collects their findings and writes the evidence.
type Master struct {
	p       *Prop
	tier    string
	dir     string
	known   map[string]string // key -> text
	viols   []violMsg
	cases   int64
	states  int64
	samples []json.RawMessage
	stats   map[string]int64
	seenKno map[string]bool
	start   time.Time
	fatal   string
	mu      sync.Mutex
	procs   int
	traces  int64
	extra   map[string]interface{}
	dev     bool
}

func (m *Master) add(v violMsg) {
	m.mu.Lock()
	m.viols = append(m.viols, v)
	m.mu.Unlock()
}

func (m *Master) runShard(self string, shard int) error {
	bf := filepath.Join(os.TempDir(), fmt.Sprintf("mc-%s-%d-%d.blk", m.p.ID, os.Getpid(), shard))
	defer os.Remove(bf)
	cmd := exec.Command(self, "worker", m.p.ID, "-tier", m.tier, "-shard", strconv.Itoa(shard), "-n", strconv.Itoa(m.procs), "-blockfile", bf)
	done, last, err, stderr := m.collect(cmd, false)
	_ = last
	if done {
		return nil
	}
	if err == nil {
		return fmt.Errorf("worker %d ended without a report", shard)
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 4 {
		return nil // a hang was reported
	}
	// A crash: find the case by re-running its block with a trace.
	b, _ := os.ReadFile(bf)
	blk := strings.TrimSpace(string(b))
	if blk == "" {
		return fmt.Errorf("worker %d failed before its first block: %v\n%s", shard, err, tail(stderr))
	}
	cmd = exec.Command(self, "worker", m.p.ID, "-tier", m.tier, "-only", blk, "-trace")
	done, last, err2, stderr2 := m.collect(cmd, true)
	if done || last == nil {
		return fmt.Errorf("worker %d crashed in block %s (%v) but the block alone does not: %s", shard, blk, err, tail(stderr))
	}
	m.add(violMsg{Kind: "viol", Case: last, Msg: "crash: " + fmt.Sprint(err2) + " " + firstLine(stderr2), Sig: "crash"})
	return nil
}

func tail(s string) string {
	if len(s) > 2000 {
		return s[:1000] + "\n...\n" + s[len(s)-1000:]
	}
	return s
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal") || strings.Contains(l, "panic") || strings.Contains(l, "runtime:") {
			return l
		}
	}
	return tail(s)
}

func (m *Master) collect(cmd *exec.Cmd, tracing bool) (done bool, last json.RawMessage, err error, stderr string) {
	out, _ := cmd.StdoutPipe()
	var eb bytes.Buffer
	cmd.Stderr = &limitedWriter{w: &eb, n: 1 << 20}
	if err = cmd.Start(); err != nil {
		return false, nil, err, ""
	}
	rd := bufio.NewReaderSize(out, 1<<20)
	for {
		line, e := rd.ReadBytes('\n')
		if len(line) > 1 {
			var v violMsg
			if json.Unmarshal(line, &v) == nil {
				switch v.Kind {
				case "sample":
					m.mu.Lock()
					if len(m.samples) < 12 {
						m.samples = append(m.samples, v.Case)
					}
					m.mu.Unlock()
				case "trace":
					last = v.Case
				case "viol":
					if !tracing {
						m.add(v)
					}
				case "done":
					done = true
					if !tracing {
						m.mu.Lock()
						m.cases += v.Cases
						m.states += v.States
						m.traces += v.Traces
						for k, n := range v.Stats {
							m.stats[k] += n
						}
						m.mu.Unlock()
					}
				}
			}
		}
		if e != nil {
			break
		}
	}
	err = cmd.Wait()
	return done, last, err, eb.String()
}

type limitedWriter struct {
	w io.Writer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	q := p
	if len(q) > l.n {
		q = q[:l.n]
	}
	l.n -= len(q)
	l.w.Write(q)
	return len(p), nil
}

func loadKnown(dir, id string) map[string]string {
	known := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return known
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=ID case={json} got="..." what="..."
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		i := strings.Index(l, "case=")
		if i < 0 {
			continue
		}
		dec := json.NewDecoder(strings.NewReader(l[i+5:]))
		var raw json.RawMessage
		if dec.Decode(&raw) != nil {
			continue
		}
		rest := l[i+5+int(dec.InputOffset()):]
		c, err := parseCase(raw)
		if err != nil {
			fmt.Fprintln(os.Stderr, "bad known finding:", l, err)
			continue
		}
		known[c.key()+"\x00"+strings.TrimPrefix(strings.TrimSpace(rest), "msg=")] = l
	}
	return known
}

func runCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	dir := fs.String("dir", "/verif", "")
	dev := fs.Bool("dev", false, "print a summary by signature, keep going")
	procs := fs.Int("procs", runtime.NumCPU(), "")
	fs.Parse(args[1:])
	p := props[args[0]]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", args[0])
		return 2
	}
	m := &Master{p: p, tier: *tier, dir: *dir, stats: map[string]int64{}, seenKno: map[string]bool{}, start: time.Now(), procs: *procs, extra: map[string]interface{}{}, dev: *dev}
	m.known = loadKnown(*dir, p.ID)
	self, _ := os.Executable()
	if p.Main != nil {
		p.Main(m)
	} else {
		var wg sync.WaitGroup
		errs := make([]error, m.procs)
		for i := 0; i < m.procs; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				errs[i] = m.runShard(self, i)
			}(i)
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				m.fatal = e.Error()
			}
		}
	}
	return m.finish()
}

func (m *Master) finish() int {
	var fresh []violMsg
	for _, v := range m.viols {
		c, err := parseCase(v.Case)
		if err == nil {
			if l, ok := m.known[c.key()+"\x00"+v.Msg]; ok {
				if !m.seenKno[l] {
					m.seenKno[l] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s => %s\n", m.p.ID, c.key(), v.Msg)
				}
				continue
			}
		}
		fresh = append(fresh, v)
	}
	if m.dev {
		m.devSummary(fresh)
	}
	m.writeEvidence(len(fresh))
	if len(fresh) == 0 {
		if m.fatal != "" {
			fmt.Fprintln(os.Stderr, "ERROR:", m.fatal)
			return 2
		}
		fmt.Printf("OK property=%s tier=%s executions=%d wall=%.1fs\n", m.p.ID, m.tier, m.cases, time.Since(m.start).Seconds())
		return 0
	}
	// one replay artefact per distinct signature, at most ten
	dir := filepath.Join(m.dir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	seen := map[string]int{}
	k := 0
	for _, v := range fresh {
		if seen[v.Sig]++; seen[v.Sig] > 1 {
			continue
		}
		if k++; k > 10 {
			break
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", m.p.ID, k))
		rb, _ := json.MarshalIndent(map[string]interface{}{"property": m.p.ID, "case": v.Case, "deviation": v.Msg, "how": "go run in /verif/mc: ./check.sh replay " + path}, "", " ")
		os.WriteFile(path, append(rb, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  case %s\n  %s\n", m.p.ID, path, v.Case, v.Msg)
	}
	return 1
}

func (m *Master) devSummary(fresh []violMsg) {
	type g struct {
		n  int
		ex []violMsg
	}
	gs := map[string]*g{}
	for _, v := range fresh {
		x := gs[v.Sig]
		if x == nil {
			x = &g{}
			gs[v.Sig] = x
		}
		x.n++
		if len(x.ex) < 6 {
			x.ex = append(x.ex, v)
		}
	}
	var ks []string
	for k := range gs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("== %s: %d\n", k, gs[k].n)
		for _, v := range gs[k].ex {
			fmt.Printf("   %s\n      %s\n", v.Case, v.Msg)
		}
	}
	fmt.Printf("total fresh %d, cases %d, wall %.1fs stats %v fatal %q\n", len(fresh), m.cases, time.Since(m.start).Seconds(), m.stats, m.fatal)
}

func (m *Master) writeEvidence(nviol int) {
	cov := map[string]interface{}{
		"states":      m.states,
		"samples":     m.samples,
		"transitions": m.cases,
		"exhaustive":  m.fatal == "",
		"bounds":      m.p.Bounds(m.tier),
		"counters":    m.stats,
		"workers":     m.procs,
	}
	cov["traces_validated_against_impl"] = m.traces
	cov["rule"] = "state = one configuration (context, operands, receiver) from which operations are explored; transition = one operation of the real code executed and compared with the reference transition; trace = one uninterrupted sequence of transitions over persistent operand objects, every step of which was compared"
	for k, v := range m.extra {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property":    m.p.ID,
		"tier":        m.tier,
		"seed":        seed,
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": m.p.Assumptions,
		"wall_s":      time.Since(m.start).Seconds(),
		"violations":  nviol,
	}
	if m.p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(m.dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(m.dir, "evidence", m.p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func runReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property string
		Case     json.RawMessage
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c, err := parseCase(r.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	if p == nil || p.Check == nil {
		fmt.Fprintln(os.Stderr, "no replayer for", r.Property)
		return 2
	}
	if msg := safeCheck(p, c); msg != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n  case %s\n  %s\n", r.Property, args[0], c.key(), msg)
		return 1
	}
	fmt.Println("no deviation")
	return 0
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2:]))
	case "worker":
		runWorker(os.Args[2:])
	case "replay":
		os.Exit(runReplay(os.Args[2:]))
	default:
		os.Exit(2)
	}
}
