package main

// C12, C16, C17, C18, C21, C23: properties of histories of calls on one instance and its copies.

import (
	"fmt"
	"math"
	"reflect"

	quamina "quamina.net/go/quamina/v2"
)

func checkHist(c any, r *Rec) error {
	return newHistRun(c.(*HCase), r).run()
}

func checkPure(c any, r *Rec) error {
	h := newHistRun(c.(*HCase), r)
	h.scribble = true
	return h.run()
}

// checkRefused compares a history with the one in which the calls that must fail are not made.
func checkRefused(c any, r *Rec) error {
	m := c.(*HCase)
	bad := 0
	for _, op := range m.Ops {
		if op.K == "bad" {
			bad++
		}
	}
	if bad == 0 {
		r.skip = true
	}
	h := newHistRun(m, r)
	if err := h.run(); err != nil {
		return err
	}
	h2 := newHistRun(m, nil)
	h2.skipBad = true
	if err := h2.run(); err != nil {
		return fmt.Errorf("without the refused additions: %v", err)
	}
	for i := range h.results {
		if h.results[i] != h2.results[i] {
			return fmt.Errorf("result %d is %s, but %s without the refused additions", i, h.results[i], h2.results[i])
		}
	}
	if !reflect.DeepEqual(h.stats, h2.stats) {
		return fmt.Errorf("the statistics are %v, but %v without the refused additions", h.stats, h2.stats)
	}
	a, b := h.insts[0].q.GetMatcherStats(), h2.insts[0].q.GetMatcherStats()
	if !reflect.DeepEqual(a, b) {
		return fmt.Errorf("the statistics at the end are %v, but %v without the refused additions", a, b)
	}
	return nil
}

// BCase: one history under several assignments of build modes to its additions.
type BCase struct {
	H     *HCase   `json:"h"`
	Modes [][]bool `json:"modes"` // by operation; the first is all false, the second all true
}

func checkModes(c any, r *Rec) error {
	m := c.(*BCase)
	var first []string
	for mi, modes := range m.Modes {
		h := newHistRun(m.H, nil)
		if mi == 0 {
			h.r = r
		}
		h.modeOf = func(op int) (bool, bool) { return modes[op], true }
		if got := h.insts[0].q.GetMatcherBuildMode(); got != quamina.BuiltForComfort {
			return fmt.Errorf("a new instance has build mode %d", got)
		}
		if err := h.run(); err != nil {
			return fmt.Errorf("with build modes %v: %v", onlyAdds(m.H, modes), err)
		}
		if mi == 0 {
			first = h.results
		} else if !reflect.DeepEqual(first, h.results) {
			for i := range first {
				if first[i] != h.results[i] {
					return fmt.Errorf("result %d is %s when all is built for comfort, but %s with build modes %v", i, first[i], h.results[i], onlyAdds(m.H, modes))
				}
			}
		}
	}
	return nil
}

func onlyAdds(h *HCase, modes []bool) []bool {
	var out []bool
	for i, op := range h.Ops {
		if op.K == "add" {
			out = append(out, modes[i])
		}
	}
	return out
}

func genModes(hg *histGen, maxND int) func(g *G, idx int) any {
	return func(g *G, idx int) any {
		h := hg.gen(g)
		// keep determinisation affordable
		nd := 0
		for i := range h.Ops {
			if h.Ops[i].K != "add" {
				continue
			}
			k := 0
			for _, f := range h.Pats[h.Ops[i].P].P.F {
				for j := range f.Alts {
					k += isNondet(&f.Alts[j])
				}
			}
			if nd+k > maxND {
				h.Ops[i] = HOp{K: "ev", E: g.N(len(h.Evs))}
				continue
			}
			nd += k
		}
		c := &BCase{H: h}
		n := len(h.Ops)
		c.Modes = append(c.Modes, make([]bool, n), make([]bool, n))
		for i := range c.Modes[1] {
			c.Modes[1][i] = true
		}
		for k := 0; k < 3; k++ {
			m := make([]bool, n)
			for i := range m {
				m[i] = h.Ops[i].K == "add" && g.B()
			}
			c.Modes = append(c.Modes, m)
		}
		return c
	}
}

// ---- C23 ----

func sane(st map[string]float64) error {
	if len(st) == 0 {
		return fmt.Errorf("no statistics at all")
	}
	if _, ok := st["bytes"]; !ok {
		return fmt.Errorf("no \"bytes\" in the statistics %v", st)
	}
	for k, v := range st {
		if math.IsNaN(v) || math.IsInf(v, 0) || v < 0 {
			return fmt.Errorf("%s is %v", k, v)
		}
	}
	return nil
}

// checkStats: the statistics are a function of the additions.
func checkStats(c any, r *Rec) error {
	m := c.(*HCase)
	h := newHistRun(m, r)
	h.noModel = true
	plain := newHistRun(m, nil) // only additions and build modes
	plain.noModel = true
	adds := 0
	comfort := true
	last := 0.0
	for i := range m.Ops {
		op := &m.Ops[i]
		before := h.insts[0].q.GetMatcherStats()
		if err := h.step(i, op); err != nil {
			return fmt.Errorf("operation %d (%s): %v", i, op.K, err)
		}
		if op.I < len(h.insts) && h.insts[op.I].speed {
			comfort = false
		}
		if op.K == "add" {
			adds++
			in := &h.insts[min(op.I, len(h.insts)-1)]
			q := plain.insts[0].q
			if err := setSpeed(q, in.speed); err != nil {
				return err
			}
			if err := q.AddPattern(op.X, m.Pats[op.P].Text); err != nil {
				return err
			}
		}
		want := plain.insts[0].q.GetMatcherStats()
		if err := sane(want); err != nil {
			return err
		}
		for k := range h.insts {
			got := h.insts[k].q.GetMatcherStats()
			if !reflect.DeepEqual(got, want) {
				return fmt.Errorf("after operation %d (%s) instance %d reports %v; the same additions alone give %v", i, op.K, k, got, want)
			}
		}
		if op.K != "add" && !reflect.DeepEqual(before, want) {
			return fmt.Errorf("operation %d (%s) changed the statistics from %v to %v", i, op.K, before, want)
		}
		last = want["bytes"]
	}
	r.NonTrivialIf(adds > 1 && last > 0)
	r.LabelIf(comfort, "all additions built for comfort")
	return nil
}

// GrowCase: ever more distinct values on one path.
type GrowCase struct {
	Texts []string `json:"texts"`
	Every int      `json:"every"`
}

func checkGrow(c any, r *Rec) error {
	m := c.(*GrowCase)
	q := mustNew()
	var marks []float64
	for i, t := range m.Texts {
		if err := q.AddPattern(i, t); err != nil {
			return fmt.Errorf("AddPattern(%s): %v", clip(t, 300), err)
		}
		if (i+1)%m.Every == 0 {
			marks = append(marks, q.GetMatcherStats()["bytes"])
		}
	}
	for i := 1; i < len(marks); i++ {
		if marks[i] <= marks[i-1] {
			return fmt.Errorf("%d more distinct values, such as %s, did not increase the bytes (%v)", m.Every, clip(m.Texts[len(m.Texts)-1], 200), marks)
		}
	}
	r.NonTrivial()
	return nil
}

func genGrow(g *G, idx int) any {
	c := &GrowCase{Every: g.R(4, 12)}
	n := c.Every * g.R(3, 6)
	kind := g.N(7)
	pre, post := "", ""
	switch g.W(3, 1, 1, 1, 1, 1) {
	case 1: // behind one value
		pre = `"a":["x"],`
	case 2:
		pre = `"a":[{"exists":true}],`
	case 3:
		pre = `"a":[{"exists":false}],`
	case 4:
		post = `,"z":["x"]`
	case 5:
		pre = `"a":[true],"b":[{"prefix":"q"}],`
	}
	alpha := pick(g, [][]rune{[]rune("ab"), []rune("abcdefgh"), []rune("aé中")})
	seen := map[string]bool{}
	for len(c.Texts) < n {
		s := genStr(g, alpha, 12)
		for len(s) < 3 || seen[s] {
			s += string(alpha[g.N(len(alpha))]) + fmt.Sprint(len(c.Texts))
		}
		seen[s] = true
		var v string
		switch kind {
		case 0:
			v = g.jstr(s, style{})
		case 1:
			v = fmt.Sprint(len(c.Texts)*7919 + g.N(1000))
		case 2:
			v = `{"prefix":` + g.jstr(s, style{}) + `}`
		case 3:
			v = `{"wildcard":` + g.jstr(s[:2]+"*"+s[2:], style{}) + `}`
			if s[0] >= 0x80 || s[1] >= 0x80 {
				v = `{"wildcard":` + g.jstr("*"+s, style{}) + `}`
			}
		case 4:
			v = `{"regexp":` + g.jstr("("+s+")+", style{}) + `}`
		case 5:
			v = `{"equals-ignore-case":` + g.jstr(s, style{}) + `}`
		case 6:
			v = `{"shellstyle":` + g.jstr(s+"*", style{}) + `}`
		}
		c.Texts = append(c.Texts, `{`+pre+`"m":[`+v+`]`+post+`}`)
	}
	return c
}

func histSub(name string, quick, thorough int, check func(any, *Rec) error, hg histGen, rule string) *Sub {
	h := hg
	return &Sub{Name: name, Quick: quick, Thorough: thorough, New: newH, Check: check, Rule: rule,
		Gen: func(g *G, idx int) any { return h.gen(g) }}
}

func init() {
	all := kindW(kS, 30, kN, 10, kLit, 8, kPrefix, 8, kExT, 6, kExF, 6, kAB, 6, kWild, 6, kShell, 5, kEIC, 4, kRX, 3)
	mixed := Profile{Kinds: all, Paths: [2]int{1, 5}, Pats: [2]int{2, 8}, Evs: [2]int{3, 8}, Fields: [2]int{1, 3}, Alts: [2]int{1, 3}, Depth: 3, ArrayPct: 8, MixPct: 25, StrMax: 6, EmptyPct: 5, RX: lightRX, WildNames: true}
	narrow := mixed
	narrow.Paths, narrow.Fields, narrow.Depth, narrow.StrMax = [2]int{1, 2}, [2]int{1, 2}, 1, 2
	histRule := "non-trivial: the history has an event for which the model requires a match"

	register(&Prop{ID: "C12", Rule: histRule + "; cases without a refused addition are skipped",
		Subs: []*Sub{
			histSub("histories", 16000, 400000, checkRefused, histGen{prof: mixed, ops: [2]int{4, 24}, del: 40, add: 30, ev: 20, delw: 6, bad: 30, badev: 2, copyw: 3, mode: 4, stat: 5, xs: [2]int{1, 6}, pre: 1},
				"histories of additions, refused additions (broken late or early, with new and old identifiers), deletions, matches and statistics; compared with the model and with the same history without the refused calls"),
			histSub("narrow", 12000, 300000, checkRefused, histGen{prof: narrow, ops: [2]int{3, 14}, del: 60, add: 30, ev: 20, delw: 15, bad: 40, copyw: 2, mode: 4, stat: 5, xs: [2]int{1, 3}},
				"short histories with few identifiers and paths"),
			histSub("scale", 1500, 40000, checkRefused, histGen{prof: scaled(mixed, scaleAll), ops: [2]int{4, 24}, del: 60, add: 20, ev: 20, delw: 6, bad: 30, copyw: 3, mode: 2, stat: 2, xs: [2]int{1, 6}, bulk: 600},
				"histories which start with many additions and delete many identifiers, over cases scaled up: "+scaleText),
		}})

	det := mixed
	det.Kinds = kindW(kS, 20, kN, 6, kLit, 4, kPrefix, 8, kExT, 4, kExF, 4, kAB, 6, kWild, 16, kShell, 12, kEIC, 4, kRX, 12)
	det.RX = rxGen{depth: 2, maxSize: 10, counts: 3}
	single := det
	single.Paths, single.Fields, single.Depth, single.Evs, single.Pats = [2]int{1, 1}, [2]int{1, 1}, 1, [2]int{8, 16}, [2]int{2, 10}
	newB := func() any { return &BCase{} }
	bsub := func(name string, q, th int, hg histGen, nd int, rule string) *Sub {
		return &Sub{Name: name, Quick: q, Thorough: th, New: newB, Check: checkModes, Gen: genModes(&hg, nd), Rule: rule}
	}
	register(&Prop{ID: "C16", Rule: histRule,
		Subs: []*Sub{
			bsub("onepath", 6000, 150000, histGen{prof: single, ops: [2]int{3, 12}, add: 30, ev: 10, xs: [2]int{2, 10}, pre: 2}, 5,
				"additions on one path, each history under five assignments of build modes (all comfort, all speed, three random), compared with each other and the model"),
			bsub("paths", 6000, 150000, histGen{prof: det, ops: [2]int{3, 14}, del: 20, add: 30, ev: 10, delw: 3, copyw: 3, xs: [2]int{2, 10}, pre: 2}, 5,
				"the same over several paths, with deletions and copies"),
			bsub("scale", 1200, 30000, histGen{prof: scaled(det, scaleAll), ops: [2]int{3, 12}, del: 20, add: 20, ev: 10, delw: 3, copyw: 3, xs: [2]int{2, 10}, bulk: 100}, 3,
				"histories which start with many additions, over cases scaled up: "+scaleText),
		}})

	register(&Prop{ID: "C17", Rule: histRule,
		Subs: []*Sub{
			histSub("histories", 24000, 600000, checkHist, histGen{prof: mixed, ops: [2]int{6, 40}, del: 100, add: 30, ev: 30, delw: 20, bad: 2, badev: 1, copyw: 3, mode: 2, xs: [2]int{1, 6}, pre: 1, xkinds: true},
				"histories of additions, deletions and matches, compared with the model after every match"),
			histSub("rebuilds", 2600, 60000, checkHist, histGen{prof: narrow, ops: [2]int{20, 60}, del: 100, add: 20, ev: 40, delw: 14, bad: 1, copyw: 2, mode: 2, xs: [2]int{2, 6}, repeat: 40, pre: 4, xkinds: true},
				"long histories with events matched hundreds of times, so that the automatic rebuild happens (labelled when the statistics show it)"),
			histSub("churn", 6000, 150000, checkHist, histGen{prof: narrow, ops: [2]int{20, 80}, del: 100, add: 30, ev: 20, delw: 30, copyw: 2, xs: [2]int{1, 3}, xkinds: true, repeat: 4},
				"few identifiers added and deleted again and again"),
			histSub("scale", 1800, 40000, checkHist, histGen{prof: scaled(mixed, scaleAll), ops: [2]int{6, 30}, del: 100, add: 20, ev: 30, delw: 30, copyw: 2, xs: [2]int{1, 6}, xkinds: true, bulk: 600, repeat: 5},
				"many identifiers, of which many are deleted, over cases scaled up: "+scaleText),
		}})

	register(&Prop{ID: "C18", Rule: histRule,
		Subs: []*Sub{
			histSub("trees", 20000, 500000, checkHist, histGen{prof: mixed, ops: [2]int{8, 40}, del: 50, add: 20, ev: 30, delw: 8, bad: 2, badev: 4, copyw: 14, mode: 8, xs: [2]int{1, 8}, pre: 1, flat: 20, xkinds: true},
				"trees of copies, with and without deletion and a custom flattener; all results are kept and compared again at the end, all instances are tried with all events at the end"),
			histSub("rebuilds", 800, 20000, checkHist, histGen{prof: narrow, ops: [2]int{20, 50}, del: 100, add: 20, ev: 40, delw: 14, copyw: 8, mode: 2, xs: [2]int{2, 6}, repeat: 30, pre: 4},
				"as trees, with enough matches for automatic rebuilds"),
			histSub("scale", 1500, 40000, checkHist, histGen{prof: scaled(mixed, scaleAll), ops: [2]int{8, 30}, del: 50, add: 20, ev: 30, delw: 8, copyw: 14, mode: 4, xs: [2]int{1, 8}, flat: 20, xkinds: true, bulk: 600},
				"as trees, over cases scaled up: "+scaleText),
			tsub("parallel", false, 4000, 60000, threadGen{prof: concProf, threads: [2]int{2, 5}, pre: [2]int{1, 6}, ops: [2]int{3, 14}, repeat: [2]int{1, 40}, del: 50, delw: 1, shared: 50, burst: 60},
				"2 to 5 goroutines with a copy each, most of which only match: what one copy does doesn't disturb the matches of the others (additions and deletions through others are explained as in C19)"),
			tsub("race", true, 1000, 20000, threadGen{prof: concProf, threads: [2]int{2, 4}, pre: [2]int{1, 6}, ops: [2]int{3, 10}, repeat: [2]int{1, 6}, del: 50, delw: 1, shared: 50, burst: 60},
				"the same under the race detector"),
		}})

	arr := mixed
	arr.ArrayPct, arr.Paths = 35, [2]int{2, 6}
	register(&Prop{ID: "C21", Rule: histRule,
		Subs: []*Sub{
			histSub("pure", 20000, 500000, checkPure, histGen{prof: mixed, ops: [2]int{10, 40}, del: 30, add: 8, ev: 40, badev: 20, bad: 4, xs: [2]int{1, 8}, pre: 3, repeat: 5},
				"matches of good and damaged events in one buffer that is overwritten after each call; results kept and compared at the end, or scribbled on"),
			histSub("arrays", 10000, 250000, checkPure, histGen{prof: arr, ops: [2]int{10, 40}, del: 10, add: 6, ev: 40, badev: 30, xs: [2]int{1, 8}, pre: 3},
				"the same with deeply nested arrays, cut anywhere"),
			histSub("scale", 1500, 40000, checkPure, histGen{prof: scaled(mixed, scaleAll), ops: [2]int{10, 30}, del: 30, add: 8, ev: 40, badev: 20, bad: 4, xs: [2]int{1, 8}, bulk: 600, repeat: 3},
				"as pure, over cases scaled up: "+scaleText),
		}})

	comfort := mixed
	comfort.EmptyPct = 30
	register(&Prop{ID: "C23", Rule: "non-trivial: at least two additions and a positive number of bytes",
		Subs: []*Sub{
			histSub("histories", 8000, 200000, checkStats, histGen{prof: comfort, ops: [2]int{4, 24}, add: 30, ev: 20, bad: 10, badev: 5, copyw: 5, xs: [2]int{1, 6}, pre: 2},
				"after every operation the statistics of every copy are those of a second instance on which only the additions are made"),
			histSub("modes", 3000, 60000, checkStats, histGen{prof: narrow, ops: [2]int{4, 16}, add: 30, ev: 10, bad: 5, copyw: 5, mode: 20, xs: [2]int{1, 6}, pre: 2},
				"the same with changing build modes"),
			histSub("scale", 600, 15000, checkStats, histGen{prof: scaled(comfort, scaleW{2, 1, 2, 4, 4, 1, 2, 3}), ops: [2]int{4, 16}, add: 30, ev: 10, bad: 5, badev: 3, copyw: 5, xs: [2]int{1, 6}, pre: 2},
				"over cases scaled up: "+scaleText),
			{Name: "growth", Quick: 1200, Thorough: 20000, New: func() any { return &GrowCase{} }, Check: checkGrow, Gen: genGrow, Rule: "ever more distinct values on one path, alone or behind or before other paths: the bytes keep growing"},
		}})
}
