package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

// C16: concurrency.  The library is rebuilt, through an overlay, with its
// imports of sync and sync/atomic redirected to a controlled scheduler
// (conc/vsync, conc/vatomic) and with the race detector; conc/main.go then
// explores the schedules of every scenario.

// concRoot is the directory of the checker's own sources.
func concRoot() string {
	wd, err := os.Getwd() // check.sh and development both run in mc/
	if err != nil {
		return "."
	}
	return wd
}

const repoDir = "/repo"

// buildConc writes the overlay and builds the explorer.
func buildConc(dir string) (string, error) {
	rep := map[string]string{}
	k := 0
	err := filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); n == ".git" || n == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ImportsOnly)
		if err != nil {
			return nil // the build will report it
		}
		out := src
		changed := false
		for i := len(f.Imports) - 1; i >= 0; i-- {
			im := f.Imports[i]
			path, _ := strconv.Unquote(im.Path.Value)
			var to, name string
			switch path {
			case "sync":
				to, name = "github.com/ericlagergren/decimal/zz_vsync", "sync"
			case "sync/atomic":
				to, name = "github.com/ericlagergren/decimal/zz_vatomic", "atomic"
			default:
				continue
			}
			if im.Name != nil {
				name = im.Name.Name
			}
			a, b := fs.Position(im.Pos()).Offset, fs.Position(im.End()).Offset
			out = append(append(append([]byte{}, out[:a]...), []byte(name+" "+strconv.Quote(to))...), out[b:]...)
			changed = true
		}
		if changed {
			o := filepath.Join(dir, fmt.Sprintf("ov%d.go", k))
			k++
			if err := os.WriteFile(o, out, 0o600); err != nil {
				return err
			}
			rep[p] = o
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	root := concRoot()
	rep[repoDir+"/zz_vsync/vsync.go"] = filepath.Join(root, "conc/vsync/vsync.go")
	rep[repoDir+"/zz_vatomic/vatomic.go"] = filepath.Join(root, "conc/vatomic/vatomic.go")
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ov, b, 0o600); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "conc")
	cmd := exec.Command("go", "build", "-race", "-tags", "verifconc", "-overlay", ov, "-o", bin, "./conc")
	cmd.Dir = root
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the explorer: %v\n%s", err, tail(string(o)))
	}
	return bin, nil
}

type concResult struct {
	Scenario  string   `json:"scenario"`
	Schedules int64    `json:"schedules"`
	Points    int64    `json:"points"`
	Bound     int      `json:"bound"`
	MaxPts    int      `json:"max_points"`
	Full      bool     `json:"full"`
	Viol      string   `json:"viol"`
	Schedule  []uint16 `json:"schedule"`
}

var raceFrame = regexp.MustCompile(`(?m)^  (github\.com/ericlagergren/decimal[^\s(]*\.[^\s]*|math/big\.[^\s]*)\(`)

// raceMsg shortens a report of the race detector to its frames in the library.
func raceMsg(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return "data race: " + firstLine(s)
	}
	s = s[i:]
	if j := strings.Index(s, "Goroutine "); j > 0 {
		s = s[:j]
	}
	var parts []string
	for _, sec := range strings.Split(s, "\n\n") {
		h := "?"
		for _, l := range strings.Split(sec, "\n") {
			if f := strings.Fields(l); len(f) > 1 && (strings.Contains(l, " at 0x")) {
				h = strings.ToLower(f[0])
				if h == "previous" {
					h = strings.ToLower(f[1])
				}
			}
		}
		var fr []string
		for _, m := range raceFrame.FindAllStringSubmatch(sec, -1) {
			fr = append(fr, strings.TrimPrefix(m[1], "github.com/ericlagergren/"))
			if len(fr) == 4 {
				break
			}
		}
		if len(fr) > 0 {
			parts = append(parts, h+" in "+strings.Join(fr, " < "))
		}
	}
	return "data race: " + strings.Join(parts, " against ")
}

// runConc runs one scenario and returns its result and the deviation.
func runConc(bin, dir, scn string, bound int, limit int64, replay string) (r concResult, c *Case, msg string, err error) {
	st := filepath.Join(dir, "st-"+strings.Map(func(r rune) rune {
		if r == '|' || r == '+' {
			return '_'
		}
		return r
	}, scn))
	defer os.Remove(st)
	args := []string{"-scenario", scn, "-bound", strconv.Itoa(bound), "-limit", strconv.FormatInt(limit, 10), "-state", st}
	if replay != "" {
		args = append(args, "-replay", replay)
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GODEBUG=asyncpreemptoff=1")
	var so, se bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &limitedWriter{w: &se, n: 1 << 18}
	rerr := cmd.Run()
	c = &Case{Op: "schedule", S: scn}
	if rerr != nil {
		ee, ok := rerr.(*exec.ExitError)
		if !ok {
			return r, nil, "", rerr
		}
		b, _ := os.ReadFile(st)
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			b = b[:i]
		}
		var s struct {
			Schedule []uint16
		}
		json.Unmarshal(b, &s)
		sb, _ := json.Marshal(s.Schedule)
		if s.Schedule == nil {
			sb = []byte("[]")
		}
		c.T = string(sb)
		switch {
		case ee.ExitCode() == 66 || strings.Contains(se.String(), "DATA RACE"):
			return r, c, raceMsg(se.String()), nil
		case ee.ExitCode() == 3:
			return r, c, "hang: the scenario does not end", nil
		}
		return r, c, "crash: " + firstLine(se.String()), nil
	}
	if err := json.Unmarshal(so.Bytes(), &r); err != nil {
		return r, nil, "", fmt.Errorf("%s: %v: %s", scn, err, clip(so.String()))
	}
	if r.Viol != "" {
		sb, _ := json.Marshal(r.Schedule)
		if r.Schedule == nil {
			sb = []byte("[]")
		}
		c.T = string(sb)
		return r, c, r.Viol, nil
	}
	return r, nil, "", nil
}

func checkC16(c *Case) string {
	dir, err := os.MkdirTemp("", "mc-conc")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(dir)
	bin, err := buildConc(dir)
	if err != nil {
		return "build: " + err.Error()
	}
	_, _, msg, err := runConc(bin, dir, c.S, 0, 1, c.T)
	if err != nil {
		return "run: " + err.Error()
	}
	return msg
}

// The operations that touch the library's shared state in few enough steps for
// three goroutines.
var concLight = []string{"addfar", "addbig", "quosmall", "pi", "e", "log10", "atan2axis", "hypot", "powint", "fixed", "sqrt", "q30", "q90"}

var concTriples = [][3]string{
	{"sin", "cos", "tan"}, {"exp", "log", "pow"}, {"asin", "acos", "atan"}, {"pibig", "pi", "e"}, {"sin", "addbig", "pi"}, {"exp", "exp", "exp"}, {"log", "log10", "pibig"},
}

// Operations that run many methods over many operands: their purpose is to
// reach the code, not to be cut up.
var concWide = map[string]bool{"unary": true, "binary": true, "edges": true, "parse": true, "shapes": true, "ebig": true}

func mainC16(m *Master) {
	dir, err := os.MkdirTemp("", "mc-conc")
	if err != nil {
		m.fatal = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	bin, err := buildConc(dir)
	if err != nil {
		m.fatal = err.Error()
		return
	}
	lb, err := exec.Command(bin, "-list").Output()
	if err != nil {
		m.fatal = err.Error()
		return
	}
	names := strings.Fields(string(lb))
	bound, limit, tlimit, wlimit := 3, int64(900), int64(2000), int64(100)
	if m.tier == "thorough" {
		bound, limit, tlimit, wlimit = 4, 60000, 60000, 3000
	}
	type job struct {
		s     string
		limit int64
	}
	var jobs []job
	for i := range names {
		for j := i; j < len(names); j++ {
			l := limit
			if i != j && (concWide[names[i]] || concWide[names[j]]) {
				l = wlimit
			}
			jobs = append(jobs, job{names[i] + "|" + names[j], l})
		}
	}
	for i := range concLight {
		for j := i; j < len(concLight); j++ {
			for k := j; k < len(concLight); k++ {
				jobs = append(jobs, job{concLight[i] + "|" + concLight[j] + "|" + concLight[k], tlimit})
			}
		}
	}
	for _, t := range concTriples {
		jobs = append(jobs, job{strings.Join(t[:], "|"), tlimit})
	}
	// two operations in a row against one: reuse of pooled objects
	for _, a := range []string{"pi", "log10", "atan2axis", "hypot", "powint", "exp", "asin"} {
		for _, b := range []string{"pi+hypot", "log10+log10", "asin+pi", "powint+addbig"} {
			jobs = append(jobs, job{b + "|" + a, limit})
		}
	}
	for _, a := range []string{"q30", "q90", "q700", "q30+q90", "q90+q700", "q30+q700"} {
		for _, b := range []string{"q30+q90", "q90+q700", "q30+q90+q700"} {
			jobs = append(jobs, job{a + "|" + b, tlimit})
			for _, d := range []string{"q30", "q30+q90", "q100001", "q700"} {
				jobs = append(jobs, job{a + "|" + b + "|" + d, tlimit})
			}
		}
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	bounds := map[string]int64{}
	for i := 0; i < m.procs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				r, c, msg, err := runConc(bin, dir, j.s, bound, j.limit, "")
				m.mu.Lock()
				m.cases += r.Points
				m.traces += r.Schedules
				m.states++
				m.stats["scenarios"]++
				m.stats["schedules"] += r.Schedules
				m.stats["choice points"] += r.Points
				if r.Full {
					bounds["all schedules"]++
				} else {
					bounds[fmt.Sprintf("cost <= %d", r.Bound)]++
				}
				if len(m.samples) < 12 && m.stats["scenarios"]%97 == 1 {
					b, _ := json.Marshal(r)
					m.samples = append(m.samples, b)
				}
				if err != nil {
					m.fatal = err.Error()
				}
				m.mu.Unlock()
				if c != nil {
					m.add(violMsg{Kind: "viol", Case: json.RawMessage(c.key()), Msg: msg, Sig: sigOf(msg)})
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	m.extra["rule"] = "state = one scenario (the operations run by two or three goroutines on shared operands, from the library's initial state); transition = one scheduling or pool choice of an execution of the real code; trace = one complete schedule, whose results were compared with those of every other schedule and of sequential execution, under the race detector"
	m.extra["bound reached"] = bounds
}

func init() {
	register(&Prop{
		ID:        "C16",
		Technique: "stateless exploration of the implementation under a controlled scheduler",
		Bounds: func(t string) string {
			n, b := "900 (three goroutines: 2000)", 3
			if t == "thorough" {
				n, b = "60000", 4
			}
			return fmt.Sprintf("every pair (and itself) of 65 operations (for six of them, which run whole groups of methods over 18 operands, with a smaller limit), 462 triples and 118 combinations of several operations in a row, on shared operands from the library's initial state; all schedules and pool choices up to cost c (one per preemption or unusual pool choice), c = 0, 1, ... up to %d as long as a level's estimated size stays below %s schedules (see \"bound reached\")", b, n)
		},
		Main:  mainC16,
		Check: checkC16,
		Assumptions: []string{
			"Interleaving is explored at synchronisation operations; between them the race detector (happens-before, on every explored schedule) shows that no other interleaving can be observed.",
			"Goroutines use their own receivers; operands are shared and only read.",
		},
	})
}
