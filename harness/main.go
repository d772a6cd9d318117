package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func main() {
	debug.SetMaxStack(512 << 20)
	addHuge()
	if len(os.Args) < 2 {
		fmt.Println("usage: qcheck run ID | replay FILE | dump ID SUB INDEX")
		os.Exit(2)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(n)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	switch os.Args[1] {
	case "run":
		only := ""
		if len(os.Args) > 3 {
			only = os.Args[3]
		}
		budget := 240 * time.Second
		if tier == "thorough" {
			budget = 40 * time.Minute
		}
		if b := os.Getenv("VERIF_BUDGET_S"); b != "" {
			budget = time.Duration(atoi(b)) * time.Second
		}
		scale := 1.0
		if f := os.Getenv("VERIF_SCALE"); f != "" {
			scale, _ = strconv.ParseFloat(f, 64)
		}
		os.Exit(runMain(os.Args[2], tier, seed, budget, only, scale))
	case "worker":
		a := os.Args[2:]
		sd, _ := strconv.ParseUint(a[4], 10, 64)
		ms, _ := strconv.ParseInt(a[9], 10, 64)
		os.Exit(workerMain(workerArgs{prop: a[0], subName: a[1], tier: a[2], dir: a[3], seed: sd, w: atoi(a[5]), nw: atoi(a[6]), start: atoi(a[7]), count: atoi(a[8]), deadline: time.UnixMilli(ms)}))
	case "one":
		os.Exit(replayMain(os.Args[2], time.Duration(atoi(os.Args[3]))*time.Second))
	case "fuzzed":
		os.Exit(fuzzedMain(os.Args[2], os.Args[3], os.Args[4], os.Args[5]))
	case "cold":
		os.Exit(coldMain())
	case "replay":
		os.Exit(replayMain(os.Args[2], 90*time.Second))
	case "dump":
		p := props[os.Args[2]]
		s := p.sub(os.Args[3])
		i := atoi(os.Args[4])
		fmt.Println(string(mustJSON(s.Gen(newG(seed, p.label(s), i), i))))
	default:
		os.Exit(2)
	}
}
