package main

// C26: what is kept in memory.

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	quamina "quamina.net/go/quamina/v2"
)

// MemCase: a kind of work that is done again and again.
type MemCase struct {
	Kind string   `json:"kind"`
	H    *HCase   `json:"h"`
	Bad  []string `json:"bad,omitempty"` // refused patterns, or damaged events
	N    []int    `json:"n,omitempty"`
}

// heapNow is the size of what can be reached.
func heapNow() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// settle does the work n times and tells by how much the heap has grown.
func settle(from, n int, work func(i int) error) (int64, error) {
	h := heapNow()
	for i := from; i < from+n; i++ {
		if err := work(i); err != nil {
			return 0, err
		}
	}
	return heapNow() - h, nil
}

const (
	leakPer  = 12       // bytes for each repetition which may be noise
	leakLow  = 16 << 10 // as may be so many in a short run
	leakHigh = 200 << 10
)

// keeps tells how many bytes each repetition of the work keeps, or 0.
func keeps(work func(i int) error) (float64, int, error) {
	// as often as is possible in a certain time
	n, i := 16, 0
	t0 := cpuTime()
	for {
		for k := 0; k < n; k++ {
			if err := work(i); err != nil {
				return 0, i, err
			}
			i++
		}
		if cpuTime()-t0 > 30*time.Millisecond || n > 4000 {
			break
		}
		n *= 2
	}
	grew, err := settle(i, n, work)
	i += n
	if err != nil || grew < int64(leakLow+n*leakPer) {
		return 0, i, err
	}
	// that may be something that grows once, or now and then: go on for longer
	tot, cnt := int64(0), 0
	late := int64(0)
	for k := 0; k < 6; k++ {
		m := n * (k + 2)
		g, err := settle(i, m, work)
		if err != nil {
			return 0, i, err
		}
		i += m
		tot += g
		cnt += m
		if k >= 3 {
			late += g
		}
		if g < int64(m*2) && k > 2 && late < int64(m*2) {
			return 0, i, nil
		}
	}
	if tot > int64(cnt*leakPer) && tot > leakHigh && late > tot/4 {
		return float64(tot) / float64(cnt), i, nil
	}
	return 0, i, nil
}

func checkMem(c any, r *Rec) error {
	m := c.(*MemCase)
	h := m.H
	r.Label(m.Kind)
	var q *quamina.Quamina
	ok := 0
	fill := func() error {
		q = h.new()
		for i := range h.Pats {
			if len(m.N) > 0 && m.N[0] == 1 {
				if err := q.SetMatcherBuildMode(quamina.BuiltForSpeed); err != nil {
					return err
				}
			}
			if err := q.AddPattern(xval(h.XKind, fmt.Sprintf("P%d", i)), h.Pats[i].Text); err != nil {
				return fmt.Errorf("AddPattern(%q): unexpected error %v", h.Pats[i].Text, err)
			}
			ok++
		}
		return nil
	}
	if err := fill(); err != nil {
		return err
	}
	match := func(q *quamina.Quamina, i int) {
		// what it returns is for the other properties to judge
		if i%5 == 4 && len(m.Bad) > 0 {
			_, _ = q.MatchesForEvent([]byte(m.Bad[i/5%len(m.Bad)]))
			return
		}
		_, _ = q.MatchesForEvent([]byte(h.Evs[i%len(h.Evs)].Text))
	}
	var work func(i int) error
	switch m.Kind {
	case "match":
		work = func(i int) error { match(q, i); return nil }
	case "deleted":
		for i := range h.Pats {
			if i%2 == 0 {
				if err := q.DeletePatterns(xval(h.XKind, fmt.Sprintf("P%d", i))); err != nil {
					return err
				}
			}
		}
		work = func(i int) error { match(q, i); return nil }
	case "other events":
		work = func(i int) error {
			s := fmt.Sprintf(`{"n%d":"v%[1]d","a":"x%[1]d","b":%[1]d,"c":{"d%[1]d":[%[1]d,"\u00e9%[1]d",{"\u0062\n%[1]d":[%[1]d.5e-3,{}]}],"é%[1]d":{"\/%[1]d":null}},"\u0061%[1]d":["\\%[1]d"],`, i)
			_, _ = q.MatchesForEvent([]byte(s + strings.TrimLeft(strings.TrimLeft(h.Evs[i%len(h.Evs)].Text, " \t\r\n"), "{")))
			_, _ = q.MatchesForEvent([]byte(s[:len(s)-i%20-1] + "}"))
			return nil
		}
	case "copies":
		work = func(i int) error {
			k := q.Copy()
			match(k, i)
			match(k, i+1)
			if i%3 == 0 {
				match(q, i)
			}
			return nil
		}
	case "refused":
		work = func(i int) error {
			x := any(i)
			if m.N[1] == 1 {
				x = fmt.Sprintf("refused %d", i)
			} else if m.N[1] == 2 {
				x = xval(h.XKind, "P0")
			}
			if err := q.AddPattern(x, m.Bad[i%len(m.Bad)]); err == nil {
				return fmt.Errorf("AddPattern(%q): an error was expected", m.Bad[i%len(m.Bad)])
			}
			if h.Del && m.N[1] != 2 && i%2 == 0 {
				if err := q.DeletePatterns(x); err != nil {
					return fmt.Errorf("DeletePatterns of an identifier that was not added: %v", err)
				}
			}
			return nil
		}
	case "instances":
		q = nil
		work = func(i int) error {
			if i%4 == 0 {
				return fill()
			}
			q = h.new()
			for k, p := range []string{`{"a":["v%d"]}`, `{"a%d":[{"prefix":"v%[1]d"}]}`, `{"a":[{"wildcard":"v%d*x"}]}`, `{"a":[{"equals-ignore-case":"a long text, so that it may be worth while to keep something %d"}]}`, `{"a":[{"regexp":"(a|b)*%d[x-z]"}]}`, `{"a":[{"anything-but":["%d","z"]}]}`,
				`{"a":[%d,%[1]d.5]}`, `{"a%d":[{"exists":false}]}`, `{"a":[{"shellstyle":"*%d"}]}`, `{"a":[{"regexp":"[^%c]"}]}`} {
				s := fmt.Sprintf(strings.ReplaceAll(p, "%c", string(rune(0x4e00+i%20000))), i)
				if j := strings.Index(s, "%!(EXTRA"); j >= 0 {
					s = s[:j]
				}
				if err := q.AddPattern(k, s); err != nil {
					return fmt.Errorf("AddPattern(%q): unexpected error %v", s, err)
				}
			}
			_, _ = q.MatchesForEvent([]byte(fmt.Sprintf(`{"a":"v%d"}`, i)))
			match(q, i)
			return nil
		}
	default:
		panic(infra{"unknown kind " + m.Kind})
	}
	per, n, err := keeps(work)
	runtime.KeepAlive(q)
	if err != nil {
		return err
	}
	if per > 0 {
		return fmt.Errorf("%s: after %d repetitions, each still keeps %.0f bytes", m.Kind, n, per)
	}
	r.NonTrivialIf(n >= 64 && (ok > 0 || len(m.Bad) > 0))
	return nil
}

// ChurnCase: rounds of adding patterns, deleting them, and matching events they matched.
type ChurnCase struct {
	Live, Adds, Rounds, Each, Size int
	Kind                           string
	Copies                         bool
	Traffic                        int // matches at the start
}

func churnPat(kind string, round, i, size int) string {
	w := fmt.Sprintf("%d-%d-", round, i)
	for len(w) < size {
		w += string(rune('a' + (len(w)*7+i)%26))
	}
	switch kind {
	case "prefix":
		return `{"a":["x",{"prefix":"` + w + `"}]}`
	case "wildcard":
		return `{"a":["x",{"wildcard":"` + w + `*y"}]}`
	case "fold":
		return `{"a":["x",{"equals-ignore-case":"` + w + `"}]}`
	case "fields":
		s := `{"a":["x"]`
		for k := 0; k < 1+size/20; k++ {
			s += fmt.Sprintf(`,"f%d":[{"exists":false}]`, k)
		}
		return s + `,"` + w + `":[{"exists":false}]}`
	}
	return `{"a":["x","` + w + `"]}`
}

func checkChurn(c any, r *Rec) error {
	m := c.(*ChurnCase)
	mk := func(round int) (*quamina.Quamina, error) {
		q := mustNew(quamina.WithPatternDeletion(true))
		for i := 0; i < m.Live; i++ {
			if err := q.AddPattern(fmt.Sprintf("live %d", i), churnPat(m.Kind, -1, i, m.Size)); err != nil {
				return nil, err
			}
		}
		return q, nil
	}
	add := func(q *quamina.Quamina, round int) error {
		for i := 0; i < m.Adds; i++ {
			if err := q.AddPattern(fmt.Sprintf("%d %d", round, i), churnPat(m.Kind, round, i, m.Size)); err != nil {
				return err
			}
		}
		return nil
	}
	ev := []byte(`{"a":"x"}`)
	// what a round's patterns take
	h0 := heapNow()
	probe, err := mk(0)
	if err != nil {
		return err
	}
	h1 := heapNow()
	if err := add(probe, 0); err != nil {
		return err
	}
	round := max(heapNow()-h1, 1000)
	fresh := h1 - h0
	runtime.KeepAlive(probe)
	probe = nil
	h0 = heapNow()
	q, err := mk(0)
	if err != nil {
		return err
	}
	qs := []*quamina.Quamina{q}
	if m.Copies {
		qs = append(qs, q.Copy(), q.Copy())
	}
	for i := 0; i < m.Traffic; i++ {
		if _, err := q.MatchesForEvent(ev); err != nil {
			return err
		}
	}
	// the policy: a rebuild once 1000 have been found since the last one, if the deleted ones among them are more
	// than a fifth of the others. One that is 3 times as patient will do.
	emitted, filtered := float64(m.Traffic*m.Live), 0.0
	garbage, most, rebuilds := 0, 0, 0
	for k := 1; k <= m.Rounds; k++ {
		if err := add(q, k); err != nil {
			return err
		}
		for i := 0; i < m.Adds; i++ {
			if err := qs[k%len(qs)].DeletePatterns(fmt.Sprintf("%d %d", k, i)); err != nil {
				return err
			}
		}
		garbage++
		for i := 0; i < m.Each; i++ {
			xs, err := qs[i%len(qs)].MatchesForEvent(ev)
			if err != nil {
				return err
			}
			if len(xs) != m.Live {
				return fmt.Errorf("%+v: round %d: %d patterns reported, but %d match", *m, k, len(xs), m.Live)
			}
			emitted += float64(m.Live)
			filtered += float64(garbage * m.Adds)
			if emitted+filtered >= 3000 && filtered > 0.6*emitted {
				garbage, emitted, filtered = 0, 0, 0
				rebuilds++
			}
		}
		most = max(most, garbage)
	}
	now := heapNow() - h0
	runtime.KeepAlive(q)
	if allow := 2*fresh + round*int64(garbage+2)*3/2 + 100<<10; now > allow {
		return fmt.Errorf("%+v: %d bytes are kept after %d rounds; the live patterns take %d, those of a round %d, and %d rounds may not have been cleaned up", *m, now, m.Rounds, fresh, round, garbage)
	}
	r.Label(m.Kind)
	r.NonTrivialIf(rebuilds >= 2 && m.Rounds > 3*(garbage+2))
	return nil
}

func genChurn(g *G, idx int) any {
	c := &ChurnCase{Live: 1 + g.W(3, 2, 1)*g.R(0, 10), Rounds: g.R(10, 30), Kind: pick(g, []string{"s", "prefix", "wildcard", "fold", "fields"}), Copies: g.P(1, 3)}
	c.Adds = c.Live + g.R(0, 3*c.Live) + g.N(3)
	c.Size = g.R(50, 400)
	if c.Adds > 20 || c.Kind == "wildcard" {
		c.Size = g.R(20, 80)
	}
	c.Each = 3000/c.Adds + g.R(3, 60)
	switch g.W(2, 1, 2) {
	case 1:
		// many deleted patterns for each live one
		c.Live, c.Adds, c.Rounds, c.Size = g.R(1, 3), g.R(60, 120), g.R(30, 60), g.R(20, 60)
		if c.Kind == "wildcard" {
			c.Kind = "prefix"
		}
		c.Each = 3000/c.Adds + g.R(2, 6)
	case 2:
		// traffic to be outweighed by the first deletions
		c.Live = g.R(10, 40)
		c.Adds, c.Rounds, c.Size = c.Live, g.R(45, 60), g.R(20, 60)
		c.Each = 3000/c.Adds + g.R(3, 20)
		c.Traffic = g.R(200000, 1500000) / c.Live
	}
	return c
}

func init() {
	all := kindW(kS, 30, kN, 10, kLit, 8, kPrefix, 8, kExT, 6, kExF, 6, kAB, 6, kWild, 6, kShell, 5, kEIC, 4, kRX, 5)
	mixed := Profile{Kinds: all, Paths: [2]int{1, 5}, Pats: [2]int{1, 8}, Evs: [2]int{1, 8}, Fields: [2]int{1, 3}, Alts: [2]int{1, 3}, Depth: 4, ArrayPct: 12, MixPct: 25, StrMax: 6, EmptyPct: 5, RX: lightRX, WildNames: true}
	gen := func(kinds ...string) func(g *G, idx int) any {
		hg := histGen{prof: mixed, ops: [2]int{1, 1}, add: 1, xs: [2]int{1, 3}, del: 40, xkinds: true, flat: 10}
		return func(g *G, idx int) any {
			c := &MemCase{Kind: kinds[idx%len(kinds)], H: hg.gen(g), N: []int{g.W(3, 1), g.N(3)}}
			c.H.Ops = nil
			if c.N[0] == 1 && patsNondet(histPats(c.H)) > 3 {
				c.N[0] = 0
			}
			switch c.Kind {
			case "deleted":
				c.H.Del = true
			case "refused":
				v := genVocab(g, &mixed)
				for i := 0; i < 5; i++ {
					c.Bad = append(c.Bad, v.badPattern(g))
				}
			case "match", "copies":
				for i := 0; i < 3; i++ {
					t := c.H.Evs[g.N(len(c.H.Evs))].Text
					c.Bad = append(c.Bad, mutateText(g, t[:g.N(len(t)+1)], evTokens))
				}
			}
			return c
		}
	}
	register(&Prop{ID: "C26", Rule: "non-trivial: something was done at least 64 times",
		Subs: []*Sub{
			{Name: "repeat", Quick: 420, Thorough: 20000, New: func() any { return &MemCase{} }, Check: checkMem, Gen: gen("match", "deleted", "other events", "copies", "refused", "instances"),
				Rule: "random patterns and events; matching good and damaged events, matching after deletions, matching events that are all different, copying, refused additions and deletions, making instances: each done some thousand times, after which the heap must not go on growing; non-trivial: at least 64 repetitions"},
			{Name: "rounds", Quick: 120, Thorough: 2000, New: func() any { return &ChurnCase{} }, Check: checkChurn, Gen: genChurn,
				Rule: "rounds of adding patterns, deleting them and matching events they matched; what is kept must be what the live patterns take, and what was deleted since the last rebuild was due; non-trivial: at least two rebuilds were due, and the garbage of all rounds would be far beyond the allowance"},
		}})
}

func histPats(h *HCase) (out []*Pat) {
	for i := range h.Pats {
		out = append(out, h.Pats[i].P)
	}
	return
}
