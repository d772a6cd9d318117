package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

// FuzzCase is the target of coverage-guided fuzzing; see fuzz.go. QC_FUZZ names a property and a sub-check.
func FuzzCase(f *testing.F) {
	debug.SetMaxStack(512 << 20)
	addHuge()
	id, sub, ok := strings.Cut(os.Getenv("QC_FUZZ"), "/")
	if !ok {
		f.Skip("QC_FUZZ is not set")
	}
	p := props[id]
	s := p.sub(sub)
	seed, _ := strconv.ParseUint(os.Getenv("QC_FUZZ_SEED"), 10, 64)
	for i := 0; i < 300; i++ {
		if b := fuzzSeed(s, seed, p.label(s), i); b != nil && len(b) < 20000 {
			f.Add(b)
		}
	}
	go watchdog()
	st := fuzzStats{}
	hashes := map[uint64]bool{}
	last := time.Now()
	file := filepath.Join(os.Getenv("QC_FUZZ_DIR"), fmt.Sprintf("stats.%d", os.Getpid()))
	f.Fuzz(func(t *testing.T, data []byte) {
		c, _, _ := fuzzCase(s, data)
		if c == nil {
			return
		}
		beginCase(s.hang())
		r := &Rec{labels: map[string]int{}}
		err := runCheck(s, c, r)
		endCase()
		st.Evaluations++
		if r.skip {
			st.Skipped++
		}
		if r.nontrivial && len(hashes) < 1<<20 {
			if h := hash64(string(mustJSON(c))); !hashes[h] {
				hashes[h] = true
				st.NonTrivial++
			}
		}
		if time.Since(last) > time.Second || st.Evaluations == 1 {
			last = time.Now()
			b, _ := json.Marshal(st)
			_ = os.WriteFile(file, b, 0o644)
		}
		if err != nil {
			t.Fatal(err)
		}
	})
}
