package main

// Coverage-guided fuzzing: the bytes of the fuzzer's input make the choices of a sub-check's
// generator, and the sub-check's own oracle decides. The target is in fuzz_test.go, which build.sh
// compiles with coverage instrumentation of quamina; this file runs it and deals with what it finds.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type fuzzStats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"distinct_nontrivial"` // summed over the fuzzer's processes, each of which counts distinct ones
	Skipped     int            `json:"skipped"`
	Seconds     float64        `json:"seconds"`
	Engine      string         `json:"engine"` // the last status line of the fuzzing engine
	Labels      map[string]int `json:"-"`
}

func fuzzSeconds(tier string) int {
	if s := os.Getenv("VERIF_FUZZ_S"); s != "" {
		return atoi(s)
	}
	if tier == "thorough" {
		return 90
	}
	return 0
}

// fuzzable: threads, enumerations (where the index decides) and measurements of time are not for the fuzzer.
func (p *Prop) fuzzable(s *Sub) bool {
	switch p.label(s) {
	case "C07/codepoints", "C08/enumerated", "C09/categories", "C11/short", "C14/short", "C24/options", "C25/doubling",
		"C20/parallel", "C20/cold", "C18/parallel":
		return false
	}
	return !s.Race && !s.NoShrink && s.Quick > 0
}

// fuzzCase makes the case for a fuzzer's input: three bytes of index, and the choices.
func fuzzCase(s *Sub, data []byte) (c any, g *G, idx int) {
	for i := 0; i < 3; i++ {
		idx <<= 8
		if i < len(data) {
			idx |= int(data[i])
		}
	}
	if len(data) > 3 {
		data = data[3:]
	} else {
		data = nil
	}
	idx %= s.Quick
	g = bytesG(data)
	return s.Gen(g, idx), g, idx
}

// fuzzSeed is the input which makes case idx of a run.
func fuzzSeed(s *Sub, seed uint64, label string, idx int) []byte {
	enc := []byte{byte(idx >> 16), byte(idx >> 8), byte(idx)}
	g := newG(seed, label, idx)
	g.enc = &enc
	if s.Gen(g, idx) == nil {
		return nil
	}
	return enc
}

func (rn *runner) fuzzSub(s *Sub, secs int) {
	exe, _ := os.Executable()
	bin := exe + "-fuzz.test"
	if _, err := os.Stat(bin); err != nil {
		rn.infraEr = "no fuzzing binary: " + err.Error()
		return
	}
	dir := filepath.Join(rn.dir, "fuzz-"+s.Name)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		rn.infraEr = err.Error()
		return
	}
	t0 := time.Now()
	cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^FuzzCase$", "-test.fuzzcachedir="+filepath.Join(dir, "cache"),
		"-test.fuzztime="+strconv.Itoa(secs)+"s", "-test.fuzzminimizetime=1x", "-test.parallel="+strconv.Itoa(runtime.NumCPU()), "-test.timeout=0")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2", "QC_FUZZ="+rn.p.ID+"/"+s.Name,
		"QC_FUZZ_DIR="+dir, "QC_FUZZ_SEED="+strconv.FormatUint(rn.seed, 10))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	timer := time.AfterFunc(time.Duration(secs)*time.Second+5*time.Minute, func() { _ = cmd.Process.Kill() })
	err := cmd.Run()
	timer.Stop()
	st := fuzzStats{Seconds: time.Since(t0).Seconds()}
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "fuzz: elapsed") && !strings.Contains(l, "baseline") {
			st.Engine = l
		}
	}
	files, _ := filepath.Glob(filepath.Join(dir, "stats.*"))
	for _, f := range files {
		var x fuzzStats
		if b, err := os.ReadFile(f); err == nil && json.Unmarshal(b, &x) == nil {
			st.Evaluations += x.Evaluations
			st.NonTrivial += x.NonTrivial
			st.Skipped += x.Skipped
		}
	}
	if rn.fuzzed == nil {
		rn.fuzzed = map[string]fuzzStats{}
	}
	rn.fuzzed[s.Name] = st
	if err == nil {
		return
	}
	found, _ := filepath.Glob(filepath.Join(dir, "testdata", "fuzz", "FuzzCase", "*"))
	sort.Strings(found)
	if len(found) == 0 {
		// the engine gave up without an input that fails
		fmt.Printf("note: the fuzzing engine stopped on %s: %s\n", s.Name, firstLines(out.String(), 6))
		rn.slow++
		return
	}
	for _, f := range found {
		rn.fuzzFound(s, f, dir, out.String())
	}
}

func decodeFuzzFile(file string) ([]byte, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	if len(lines) != 2 || !strings.HasPrefix(lines[1], "[]byte(") || !strings.HasSuffix(lines[1], ")") {
		return nil, errors.New("not a fuzzer's file: " + file)
	}
	v, err := strconv.Unquote(lines[1][len("[]byte(") : len(lines[1])-1])
	return []byte(v), err
}

// fuzzFound replays what the fuzzer reports in processes of its own, the first of which also shrinks it.
func (rn *runner) fuzzFound(s *Sub, file, dir, log string) {
	if rn.viol != nil {
		return
	}
	data, err := decodeFuzzFile(file)
	if err != nil {
		rn.infraEr = err.Error()
		return
	}
	c, _, idx := fuzzCase(s, data)
	if c == nil {
		return
	}
	cb := mustJSON(c)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "fuzzed", rn.p.ID, s.Name, file, filepath.Join(dir, "found.json"))
	cmd.Env = workerEnv()
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	_ = cmd.Run()
	var f failRec
	if b, err := os.ReadFile(filepath.Join(dir, "found.json")); err == nil && json.Unmarshal(b, &f) == nil {
		if f.Infra {
			rn.infraEr = f.Msg
			return
		}
		rn.setViol(s, idx, "found by coverage-guided fuzzing: "+f.Msg, f.Case)
		return
	}
	sf := filepath.Join(dir, "suspect.json")
	b, _ := json.Marshal(Replay{rn.p.ID, s.Name, rn.seed, idx, "", cb})
	_ = os.WriteFile(sf, b, 0o644)
	code, o := runOne(s, sf, 2*s.hang())
	switch {
	case code == 0:
		if fatalInQuamina(log) {
			rn.setViol(s, idx, "found by coverage-guided fuzzing: "+firstLines(log, 15), cb)
			return
		}
		fmt.Printf("note: what the fuzzer reports for %s does not happen again in a process of its own: %s\n", s.Name, firstLines(log, 6))
		rn.slow++
	case code == exitInfra:
		rn.infraEr = o
	case code == 1 || code == exitHang || code == exitMem || fatalInQuamina(o):
		rn.setViol(s, idx, fmt.Sprintf("found by coverage-guided fuzzing (exit %d): %s", code, firstLines(o, 15)), cb)
	default:
		rn.infraEr = fmt.Sprintf("replaying what the fuzzer found: exit %d: %s", code, firstLines(o, 15))
	}
}

// fuzzedMain runs and shrinks what the fuzzer found.
func fuzzedMain(id, sub, file, outFile string) int {
	s := props[id].sub(sub)
	data, err := decodeFuzzFile(file)
	if err != nil {
		fmt.Println(err)
		return exitInfra
	}
	go watchdog()
	c, g, idx := fuzzCase(s, data)
	beginCase(s.hang())
	err = runCheck(s, c, &Rec{labels: map[string]int{}})
	endCase()
	if err == nil {
		return 0
	}
	var inf infra
	f := failRec{Index: idx, Msg: err.Error(), Case: mustJSON(c), Infra: errors.As(err, &inf)}
	write := func() {
		b, _ := json.Marshal(f)
		_ = os.WriteFile(outFile+".tmp", b, 0o644)
		_ = os.Rename(outFile+".tmp", outFile)
	}
	write()
	if !f.Infra && !s.NoShrink {
		shrinkFail(s, g.tape, idx, &f)
		write()
	}
	return 1
}
