package main

// The driver: a parent process shards generated cases over worker processes, survives crashes and
// hangs of the code under test, writes replay files and evidence.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Rec collects what a case was about.
type Rec struct {
	labels     map[string]int
	nontrivial bool
	skip       bool
}

func (r *Rec) Label(s string) { r.labels[s]++ }
func (r *Rec) LabelIf(b bool, s string) {
	if b {
		r.labels[s]++
	}
}
func (r *Rec) NonTrivial()         { r.nontrivial = true }
func (r *Rec) NonTrivialIf(b bool) { r.nontrivial = r.nontrivial || b }

type Sub struct {
	Name            string
	Quick, Thorough int
	Race            bool                      // run in the -race build
	Gen             func(g *G, idx int) any   // a case (pointer); nil ends the enumeration
	New             func() any                // empty case for decoding a replay
	Check           func(c any, r *Rec) error // nil: the property held on this case
	Rule            string
	Workers         int           // 0: default
	HangCPU         time.Duration // 0: default
	NoShrink        bool
}

type Prop struct {
	ID   string
	Subs []*Sub
	Rule string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func (p *Prop) sub(name string) *Sub {
	for _, s := range p.Subs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func (p *Prop) label(s *Sub) string { return p.ID + "/" + s.Name }

// infra marks a failure of the harness itself.
type infra struct{ msg string }

func (i infra) Error() string { return "harness: " + i.msg }

// runCheck runs one case and turns panics in the code under test into violations.
func runCheck(s *Sub, c any, r *Rec) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(modelTooDeep); ok {
				r.skip = true
				err = nil
				return
			}
			st := string(debug.Stack())
			if i, ok := e.(infra); ok {
				err = i
				return
			}
			if strings.Contains(st, "quamina.net/go/quamina") {
				err = fmt.Errorf("panic in quamina: %v\n%s", e, trimStack(st))
				return
			}
			err = infra{fmt.Sprintf("panic: %v\n%s", e, st)}
		}
	}()
	if os.Getenv("VERIF_SLOW") != "" {
		t := time.Now()
		defer func() {
			if d := time.Since(t); d > time.Second {
				b, _ := json.Marshal(c)
				fmt.Fprintf(os.Stderr, "slow: %s %v %s\n", s.Name, d, clip(string(b), 300))
				os.WriteFile(fmt.Sprintf("/tmp/slow-%s-%d", s.Name, t.UnixNano()), b, 0o644)
			}
		}()
	}
	return s.Check(c, r)
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "quamina.net/go/quamina") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Seed     uint64          `json:"seed"`
	Index    int             `json:"index"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type subStats struct {
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Skipped     int               `json:"skipped"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Done        bool              `json:"done"` // enumeration or count completed
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

const (
	exitHang = 77
	exitMem  = 78
	exitRace = 66
	// something is wrong with the harness; not 2, which is how Go ends a process that crashes
	exitInfra = 67
)

var caseStartCPU atomic.Int64
var caseLimit atomic.Int64
var memLimit int64 = 3 << 30

func watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		st := caseStartCPU.Load()
		if st == 0 {
			continue
		}
		if int64(cpuTime())-st > caseLimit.Load() {
			dumpStacks()
			os.Exit(exitHang)
		}
		if rssBytes() > memLimit {
			dumpStacks()
			os.Exit(exitMem)
		}
	}
}

func dumpStacks() {
	if os.Getenv("VERIF_SLOW") != "" {
		b := make([]byte, 1<<20)
		os.Stderr.Write(b[:runtime.Stack(b, true)])
	}
}

func beginCase(limit time.Duration) {
	caseLimit.Store(int64(limit))
	caseStartCPU.Store(int64(cpuTime()) + 1)
}
func endCase() { caseStartCPU.Store(0) }

const defaultHangCPU = 40 * time.Second

func (s *Sub) hang() time.Duration {
	if s.HangCPU > 0 {
		return s.HangCPU
	}
	if s.Name == "scale" {
		return 5 * defaultHangCPU
	}
	return defaultHangCPU
}

// ---- worker ----

type workerArgs struct {
	prop, subName, tier, dir string
	seed                     uint64
	w, nw, start, count      int
	deadline                 time.Time
}

type failRec struct {
	Index int             `json:"index"`
	Msg   string          `json:"msg"`
	Case  json.RawMessage `json:"case"`
	Infra bool            `json:"infra"`
}

func workerMain(a workerArgs) int {
	debug.SetGCPercent(200)
	p := props[a.prop]
	s := p.sub(a.subName)
	go watchdog()
	base := filepath.Join(a.dir, fmt.Sprintf("%s.%d", s.Name, a.w))
	journal, err := os.Create(base + ".journal")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitInfra
	}
	var jbuf [8]byte
	st := subStats{Labels: map[string]int{}}
	hashes := map[uint64]bool{}
	flush := func() {
		b, _ := json.Marshal(st)
		_ = os.WriteFile(fmt.Sprintf("%s.stats.%d", base, a.start), b, 0o644)
		hb := make([]byte, 0, 8*len(hashes))
		for h := range hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		_ = os.WriteFile(fmt.Sprintf("%s.hash.%d", base, a.start), hb, 0o644)
	}
	writeFail := func(f failRec) {
		b, _ := json.Marshal(f)
		_ = os.WriteFile(base+".fail.tmp", b, 0o644)
		_ = os.Rename(base+".fail.tmp", base+".fail")
	}
	lastFlush := time.Now()
	label := p.label(s)
	done := true
	for i := a.start; i < a.count; i += a.nw {
		if i%a.nw != a.w {
			i += ((a.w-i%a.nw)+a.nw)%a.nw - a.nw
			continue
		}
		if time.Now().After(a.deadline) {
			done = false
			break
		}
		binary.LittleEndian.PutUint64(jbuf[:], uint64(i)+1)
		_, _ = journal.WriteAt(jbuf[:], 0)
		g := newG(a.seed, label, i)
		beginCase(s.hang())
		c := s.Gen(g, i)
		if c == nil {
			endCase()
			break
		}
		r := &Rec{labels: st.Labels}
		cerr := runCheck(s, c, r)
		endCase()
		st.Evaluations++
		if r.skip {
			st.Skipped++
		}
		if cerr != nil {
			var inf infra
			f := failRec{Index: i, Msg: cerr.Error(), Case: mustJSON(c), Infra: errors.As(cerr, &inf)}
			writeFail(f)
			flush()
			if !f.Infra && !s.NoShrink {
				shrinkFail(s, g.tape, i, &f)
				writeFail(f)
			}
			if f.Infra {
				return exitInfra
			}
			return 1
		}
		if r.nontrivial {
			cb := mustJSON(c)
			h := hash64(string(cb))
			if !hashes[h] {
				hashes[h] = true
				st.NonTrivial++
				if len(st.Samples) < 2 && len(cb) < 6000 {
					st.Samples = append(st.Samples, cb)
				}
			}
		}
		if time.Since(lastFlush) > time.Second {
			flush()
			lastFlush = time.Now()
		}
	}
	st.Done = done
	flush()
	return 0
}

func shrinkFail(s *Sub, tape []uint32, idx int, f *failRec) {
	var bestMsg string
	var bestCase json.RawMessage
	var bestTape string
	got := map[string]failRec{}
	fails := func(t []uint32) (bool, []uint32) {
		g := replayG(t)
		beginCase(s.hang())
		defer endCase()
		var c any
		var err error
		func() {
			defer func() {
				if e := recover(); e != nil {
					c = nil
				}
			}()
			c = s.Gen(g, idx)
		}()
		if c == nil {
			return false, nil
		}
		err = runCheck(s, c, &Rec{labels: map[string]int{}})
		var inf infra
		if err == nil || errors.As(err, &inf) {
			return false, nil
		}
		got[fmt.Sprint(g.tape)] = failRec{Index: idx, Msg: err.Error(), Case: mustJSON(c)}
		return true, g.tape
	}
	best := shrinkTape(tape, fails, 6000, 15*time.Second)
	_ = bestMsg
	_ = bestCase
	_ = bestTape
	if b, ok := got[fmt.Sprint(best)]; ok {
		*f = b
	}
}

// ---- parent ----

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

type knownEntry struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub,omitempty"`
	Status   string          `json:"status"` // known | fixed
	What     string          `json:"what"`
	Commit   string          `json:"commit,omitempty"`
	Case     json.RawMessage `json:"case,omitempty"`
}

func loadKnown() []knownEntry {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var out struct {
		Findings []knownEntry `json:"findings"`
	}
	if err := json.Unmarshal(b, &out); err != nil {
		panic(infra{"known_findings.json: " + err.Error()})
	}
	return out.Findings
}

func binFor(s *Sub) string {
	exe, _ := os.Executable()
	if s.Race {
		return exe + "-race"
	}
	return exe
}

// runOne runs a saved case in a fresh process; returns exit code and output.
func runOne(s *Sub, replayFile string, cpu time.Duration) (int, string) {
	cmd := exec.Command(binFor(s), "one", replayFile, strconv.Itoa(int(cpu.Seconds())))
	cmd.Env = workerEnv()
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	timer := time.AfterFunc(cpu*6+60*time.Second, func() { _ = cmd.Process.Kill() })
	defer timer.Stop()
	err := cmd.Run()
	code := 0
	if err != nil {
		code = 99
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			code = ee.ExitCode()
			if code < 0 {
				code = 98
			}
		}
	}
	return code, out.String()
}

func workerEnv() []string {
	env := append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=single", "GOMAXPROCS=4")
	return env
}

func replayMain(file string, cpu time.Duration) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return exitInfra
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return exitInfra
	}
	p := props[rp.Property]
	if p == nil || p.sub(rp.Sub) == nil {
		fmt.Println("unknown property or sub-check", rp.Property, rp.Sub)
		return exitInfra
	}
	s := p.sub(rp.Sub)
	c := s.New()
	if err := json.Unmarshal(rp.Case, c); err != nil {
		fmt.Println(err)
		return exitInfra
	}
	go watchdog()
	beginCase(cpu)
	r := &Rec{labels: map[string]int{}}
	err = runCheck(s, c, r)
	endCase()
	if err == nil {
		fmt.Println("holds")
		return 0
	}
	fmt.Println(err)
	var inf infra
	if errors.As(err, &inf) {
		return exitInfra
	}
	return 1
}

type runner struct {
	p       *Prop
	tier    string
	seed    uint64
	dir     string
	t0      time.Time
	stats   map[string]*subStats
	hashes  map[string]map[uint64]bool
	slow    int
	corpus  int
	known   []string
	fuzzed  map[string]fuzzStats
	viol    *Replay
	infraEr string
}

func runMain(id, tier string, seed uint64, budget time.Duration, only string, scale float64) int {
	p := props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	dir, err := os.MkdirTemp("", "qcheck-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	rn := &runner{p: p, tier: tier, seed: seed, dir: dir, t0: time.Now(), stats: map[string]*subStats{}, hashes: map[string]map[uint64]bool{}}
	rn.runKnownAndCorpus()
	deadline := time.Now().Add(budget)
	if rn.viol == nil && rn.infraEr == "" {
		for i, s := range p.Subs {
			if only != "" && s.Name != only {
				continue
			}
			// share the remaining budget among the remaining sub-checks
			left := time.Until(deadline)
			share := left / time.Duration(len(p.Subs)-i)
			if share < 5*time.Second {
				share = 5 * time.Second
			}
			rn.runSub(s, time.Now().Add(share), scale)
			if rn.viol != nil || rn.infraEr != "" {
				break
			}
		}
	}
	if secs := fuzzSeconds(tier); secs > 0 {
		for _, s := range p.Subs {
			if rn.viol != nil || rn.infraEr != "" {
				break
			}
			if only != "" && s.Name != only || !rn.p.fuzzable(s) {
				continue
			}
			rn.fuzzSub(s, secs)
		}
	}
	code := 0
	if rn.viol != nil {
		_ = os.MkdirAll(filepath.Join(verifDir, "replays"), 0o755)
		b, _ := json.MarshalIndent(rn.viol, "", " ")
		path := filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%s-%016x.json", id, rn.viol.Sub, hash64(string(rn.viol.Case))))
		_ = os.WriteFile(path, b, 0o644)
		fmt.Printf("%s/%s case %d: %s\n", id, rn.viol.Sub, rn.viol.Index, rn.viol.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	} else if rn.infraEr != "" {
		fmt.Println("ERROR:", rn.infraEr)
		code = 2
	}
	rn.evidence()
	return code
}

func (rn *runner) setViol(s *Sub, idx int, msg string, c json.RawMessage) {
	if rn.viol == nil {
		rn.viol = &Replay{rn.p.ID, s.Name, rn.seed, idx, msg, c}
	}
}

func (rn *runner) runKnownAndCorpus() {
	for i, k := range loadKnown() {
		if k.Property != rn.p.ID {
			continue
		}
		if k.Status == "fixed" && len(k.Case) == 0 {
			continue
		}
		s := rn.p.sub(k.Sub)
		if s == nil {
			rn.infraEr = fmt.Sprintf("known finding %d names unknown sub-check %q", i, k.Sub)
			return
		}
		f := filepath.Join(rn.dir, fmt.Sprintf("known%d.json", i))
		b, _ := json.Marshal(Replay{Property: rn.p.ID, Sub: k.Sub, Case: k.Case})
		_ = os.WriteFile(f, b, 0o644)
		code, out := runOne(s, f, 20*time.Second)
		switch k.Status {
		case "known":
			if code == 0 {
				fmt.Printf("note: known finding no longer reproduces: %s\n", k.What)
			} else if code == exitInfra {
				rn.infraEr = out
			} else {
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", rn.p.ID, k.What)
				fmt.Println(line)
				rn.known = append(rn.known, k.What)
			}
		case "fixed":
			rn.corpus++
			if code == exitInfra {
				rn.infraEr = out
			} else if code != 0 {
				rn.setViol(s, -1, "a repaired defect is back ("+k.What+"): "+strings.TrimSpace(out), k.Case)
				return
			}
		}
	}
	files, _ := filepath.Glob(filepath.Join(verifDir, "corpus", rn.p.ID, "*.json"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var rp Replay
		if json.Unmarshal(b, &rp) != nil {
			rn.infraEr = "bad corpus file " + f
			return
		}
		s := rn.p.sub(rp.Sub)
		if s == nil {
			rn.infraEr = "corpus file names unknown sub-check: " + f
			return
		}
		rn.corpus++
		code, out := runOne(s, f, 60*time.Second)
		if code == exitInfra {
			rn.infraEr = f + ": " + out
			return
		}
		if code != 0 {
			rn.setViol(s, rp.Index, "corpus case "+filepath.Base(f)+" (exit "+strconv.Itoa(code)+"): "+strings.TrimSpace(out), rp.Case)
			return
		}
	}
}

func (rn *runner) runSub(s *Sub, deadline time.Time, scale float64) {
	count := s.Quick
	if rn.tier == "thorough" {
		count = s.Thorough
		if count == 0 {
			count = s.Quick
		}
	}
	if scale != 1 {
		count = int(float64(count) * scale)
		if count < 1 {
			count = 1
		}
	}
	nw := runtime.NumCPU()
	if s.Race {
		nw = 3
	}
	if s.Workers > 0 {
		nw = s.Workers
	}
	if nw > count {
		nw = count
	}
	type ended struct {
		w    int
		code int
		out  string
	}
	ch := make(chan ended, nw)
	procs := make([]*exec.Cmd, nw)
	start := func(w, from int) {
		cmd := exec.Command(binFor(s), "worker", rn.p.ID, s.Name, rn.tier, rn.dir, strconv.FormatUint(rn.seed, 10),
			strconv.Itoa(w), strconv.Itoa(nw), strconv.Itoa(from), strconv.Itoa(count), strconv.FormatInt(deadline.UnixMilli(), 10))
		cmd.Env = workerEnv()
		lim := &limitedBuf{max: 64 << 10}
		cmd.Stdout, cmd.Stderr = lim, lim
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		procs[w] = cmd
		if err := cmd.Start(); err != nil {
			ch <- ended{w, 99, err.Error()}
			return
		}
		go func() {
			err := cmd.Wait()
			code := 0
			if err != nil {
				code = 99
				var ee *exec.ExitError
				if errors.As(err, &ee) {
					code = ee.ExitCode()
					if code < 0 {
						code = 98
					}
				}
			}
			ch <- ended{w, code, lim.String()}
		}()
	}
	for w := 0; w < nw; w++ {
		start(w, w)
	}
	running := nw
	killed := false
	killAll := func() {
		killed = true
		for _, c := range procs {
			if c != nil && c.Process != nil {
				_ = c.Process.Kill()
			}
		}
	}
	restarts := 0
	for running > 0 {
		e := <-ch
		running--
		if killed {
			continue
		}
		base := filepath.Join(rn.dir, fmt.Sprintf("%s.%d", s.Name, e.w))
		switch e.code {
		case 0:
		case 1, exitInfra:
			var f failRec
			b, err := os.ReadFile(base + ".fail")
			if err != nil || json.Unmarshal(b, &f) != nil {
				rn.infraEr = "worker failed: " + e.out
			} else if f.Infra || e.code == exitInfra {
				rn.infraEr = f.Msg
			} else {
				rn.setViol(s, f.Index, f.Msg, f.Case)
			}
			killAll()
		default:
			// the worker died in the middle of a case: crash, race report, hang or memory
			idx := -1
			if jb, err := os.ReadFile(base + ".journal"); err == nil && len(jb) >= 8 {
				idx = int(binary.LittleEndian.Uint64(jb)) - 1
			}
			if idx < 0 {
				rn.infraEr = fmt.Sprintf("worker died (exit %d) before its first case: %s", e.code, e.out)
				killAll()
				continue
			}
			// if a failure had been recorded, the death happened while shrinking it
			if b, err := os.ReadFile(base + ".fail"); err == nil {
				var f failRec
				if json.Unmarshal(b, &f) == nil && !f.Infra {
					rn.setViol(s, f.Index, f.Msg, f.Case)
					killAll()
					continue
				}
			}
			c := s.Gen(newG(rn.seed, rn.p.label(s), idx), idx)
			cb := mustJSON(c)
			f := filepath.Join(rn.dir, "suspect.json")
			b, _ := json.Marshal(Replay{rn.p.ID, s.Name, rn.seed, idx, "", cb})
			_ = os.WriteFile(f, b, 0o644)
			what := map[int]string{exitHang: "did not return within its CPU allowance", exitMem: "exceeded its memory allowance", exitRace: "data race"}[e.code]
			if what == "" {
				what = fmt.Sprintf("process died (exit %d)", e.code)
			}
			if e.code == exitRace {
				rn.setViol(s, idx, "data race: "+raceSummary(e.out), cb)
				killAll()
				continue
			}
			code, out := runOne(s, f, 2*s.hang())
			switch {
			case code == 1:
				rn.setViol(s, idx, what+"; on replay: "+strings.TrimSpace(out), cb)
				killAll()
			case code == exitHang || code == exitMem:
				rn.setViol(s, idx, what+" (confirmed in a fresh process)", cb)
				killAll()
			case code == exitRace:
				rn.setViol(s, idx, "data race: "+raceSummary(out), cb)
				killAll()
			case code == 0:
				if fatalInQuamina(e.out) {
					rn.setViol(s, idx, what+": "+firstLines(e.out, 12), cb)
					killAll()
					continue
				}
				rn.slow++
				restarts++
				if restarts > 20 {
					rn.infraEr = "too many unexplained worker deaths: " + what + " " + firstLines(e.out, 12)
					killAll()
					continue
				}
				start(e.w, idx+nw)
				running++
			case code == exitInfra:
				rn.infraEr = "replaying a suspect case: " + out
				killAll()
			default:
				if fatalInQuamina(out) || fatalInQuamina(e.out) {
					rn.setViol(s, idx, what+": "+firstLines(out, 15), cb)
				} else {
					rn.infraEr = fmt.Sprintf("%s; replay exit %d: %s", what, code, firstLines(out, 15))
				}
				killAll()
			}
		}
	}
	// collect statistics
	tot := &subStats{Labels: map[string]int{}, Done: true}
	hs := map[uint64]bool{}
	files, _ := filepath.Glob(filepath.Join(rn.dir, s.Name+".*.stats.*"))
	sort.Strings(files)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		var st subStats
		if json.Unmarshal(b, &st) != nil {
			continue
		}
		tot.Evaluations += st.Evaluations
		tot.Skipped += st.Skipped
		for k, v := range st.Labels {
			tot.Labels[k] += v
		}
		if len(tot.Samples) < 3 {
			tot.Samples = append(tot.Samples, st.Samples...)
		}
		tot.Done = tot.Done && st.Done
	}
	hfiles, _ := filepath.Glob(filepath.Join(rn.dir, s.Name+".*.hash.*"))
	for _, f := range hfiles {
		b, _ := os.ReadFile(f)
		for i := 0; i+8 <= len(b); i += 8 {
			hs[binary.LittleEndian.Uint64(b[i:])] = true
		}
	}
	tot.NonTrivial = len(hs)
	if len(tot.Samples) > 3 {
		tot.Samples = tot.Samples[:3]
	}
	rn.stats[s.Name] = tot
}

func fatalInQuamina(out string) bool {
	return (strings.Contains(out, "fatal error:") || strings.Contains(out, "panic:") || strings.Contains(out, "SIGSEGV") || strings.Contains(out, "stack overflow")) &&
		(strings.Contains(out, "quamina.net/go/quamina") || strings.Contains(out, "/repo/"))
}

func raceSummary(out string) string {
	i := strings.Index(out, "WARNING: DATA RACE")
	if i >= 0 {
		out = out[i:]
	}
	return firstLines(out, 24)
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

type limitedBuf struct {
	b   bytes.Buffer
	max int
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	if room := l.max - l.b.Len(); room > 0 {
		if len(p) > room {
			l.b.Write(p[:room])
		} else {
			l.b.Write(p)
		}
	}
	return len(p), nil
}
func (l *limitedBuf) String() string { return l.b.String() }

func (rn *runner) evidence() {
	evals, nontriv, skipped := 0, 0, 0
	var samples []any
	subs := map[string]any{}
	complete := true
	var rules []string
	for _, s := range rn.p.Subs {
		st := rn.stats[s.Name]
		if st == nil {
			continue
		}
		evals += st.Evaluations
		nontriv += st.NonTrivial
		skipped += st.Skipped
		complete = complete && st.Done
		subs[s.Name] = map[string]any{"evaluations": st.Evaluations, "distinct_nontrivial": st.NonTrivial, "skipped": st.Skipped, "labels": st.Labels, "completed": st.Done}
		for i, x := range st.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"sub": s.Name, "case": x})
			}
		}
		rules = append(rules, s.Name+": "+s.Rule)
	}
	for _, f := range rn.fuzzed {
		evals += f.Evaluations
		nontriv += f.NonTrivial
		skipped += f.Skipped
	}
	viol := 0
	if rn.viol != nil {
		viol = 1
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": rn.p.ID, "tier": rn.tier, "seed": rn.seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": nontriv, "rule": rn.p.Rule + " | " + strings.Join(rules, " | "),
			"samples": samples, "sub_checks": subs, "regression_cases": rn.corpus, "skipped_as_undecided": skipped,
			"coverage_guided": rn.fuzzed, "slow_cases": rn.slow, "all_planned_cases_run": complete, "known_findings": rn.known,
		},
		"assumptions": []string{"the reference model in /verif/harness states the documented semantics correctly"},
		"wall_s":      time.Since(rn.t0).Seconds(),
		"violations":  viol,
	}
	_ = os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(verifDir, "evidence", rn.p.ID+".json"), b, 0o644)
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d regression cases, %.1fs\n", rn.p.ID, rn.tier, rn.seed, evals, nontriv, rn.corpus, time.Since(rn.t0).Seconds())
}

var _ = bufio.NewReader
