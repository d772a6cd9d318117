package main

// C28: matching goes on while a pattern is being added.

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	quamina "quamina.net/go/quamina/v2"
)

type WaitCase struct {
	Kind     string `json:"kind"` // of the addition that takes long
	N        int    `json:"n"`    // its size
	H        *HCase `json:"h"`    // the patterns and events
	Matchers int    `json:"matchers"`
	Fresh    int    `json:"fresh,omitempty"` // each so many matches, the matcher goes on with a new copy
	Same     bool   `json:"same,omitempty"`  // the addition is to a path that the events have
}

var slowKinds = []string{"list", "fold list", "prefix list", "wildcard list", "regexp", "fast wildcards", "paths", "many"}

// slow is what takes long to add: text or texts, of size n, for paths that other patterns have or don't.
func (m *WaitCase) slow(n int) (texts []string) {
	list := func(n int, f string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(&b, f, hash64(fmt.Sprint(i)))
		}
		return b.String()
	}
	switch m.Kind {
	case "list":
		return []string{`{"slow":[` + list(n*2, `"%x"`) + `]}`}
	case "fold list":
		return []string{`{"slow":[` + list(n/2, `{"equals-ignore-case":"%x"}`) + `]}`}
	case "prefix list":
		return []string{`{"slow":[` + list(n*2, `{"prefix":"%x"}`) + `]}`}
	case "wildcard list", "fast wildcards":
		return []string{`{"slow":[` + list(n/20, `{"wildcard":"%x*y"}`) + `]}`}
	case "regexp":
		return []string{`{"slow":[{"regexp":"(` + strings.ReplaceAll(list(n/100+1, `%x([a-z]y?){1,40}`), "},", "}|") + `)"}]}`}
	case "paths":
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, `"p%d":[%d],`, i, i)
		}
		return []string{`{` + b.String() + `"slow":[1]}`}
	}
	// one after the other
	for i := 0; i < n; i++ {
		texts = append(texts, fmt.Sprintf(`{"slow":["%x",%d,{"prefix":"%x"}]}`, hash64(fmt.Sprint(i)), i, i*7))
	}
	return texts
}

func xkeys(xs []quamina.X) (out []string) {
	for _, x := range xs {
		out = append(out, fmt.Sprintf("%T %v", x, x))
	}
	sort.Strings(out)
	return
}

func (m *WaitCase) base() (*quamina.Quamina, error) {
	q := m.H.new()
	defer func() {
		if m.Kind == "fast wildcards" {
			_ = q.SetMatcherBuildMode(quamina.BuiltForSpeed)
		}
	}()
	for i := range m.H.Pats {
		if err := q.AddPattern(xval(m.H.XKind, fmt.Sprintf("P%d", i)), m.H.Pats[i].Text); err != nil {
			return nil, fmt.Errorf("AddPattern(%q): unexpected error %v", m.H.Pats[i].Text, err)
		}
	}
	if m.Same {
		return q, q.AddPattern("same", `{"slow":["v",{"prefix":"w"}]}`)
	}
	return q, nil
}

func (m *WaitCase) event(i int) []byte {
	t := m.H.Evs[i%len(m.H.Evs)].Text
	if k := strings.IndexByte(t, '{'); m.Same && !strings.HasPrefix(strings.TrimLeft(t[k+1:], " \t\r\n"), "}") {
		t = t[:k+1] + `"slow":"` + []string{"v", "w", "u"}[i%3] + `",` + t[k+1:]
	}
	return []byte(t)
}

const (
	waitAdd = 250 * time.Millisecond // how long the addition should take
	waitGap = 120 * time.Millisecond // how long a goroutine may have to wait for a processor
)

func checkWait(c any, r *Rec) error {
	m := c.(*WaitCase)
	if runtime.GOMAXPROCS(0) < 3 {
		r.Label("too few processors")
		return nil
	}
	// a size for which it takes long enough
	n := max(m.N, 10)
	took := time.Duration(0)
	for ; n < 4<<20; n += n/2 + 1 {
		q, err := m.base()
		if err != nil {
			return err
		}
		ts := m.slow(n)
		t0 := time.Now()
		for _, t := range ts {
			if err := q.AddPattern("slow", t); err != nil {
				return fmt.Errorf("%s, size %d: AddPattern: unexpected error %v", m.Kind, n, err)
			}
		}
		if took = time.Since(t0); took > waitAdd {
			break
		}
	}
	var worst string
	for try := 0; try < 4; try++ {
		gap, add, count, err := m.race(n, r)
		if err != nil {
			return err
		}
		if os.Getenv("QC_LAT") != "" {
			fmt.Fprintf(os.Stderr, "WAIT %s n=%d alone %v add %v gap %v count %d\n", m.Kind, n, took, add, gap, count)
		}
		slowed := add > 8*took+2*time.Second
		if gap <= waitGap+add/4 && !slowed {
			r.Label(m.Kind)
			r.NonTrivialIf(add > waitAdd/2 && count > 200)
			return nil
		}
		worst = fmt.Sprintf("%s, size %d: while a pattern was being added for %v (%v when nothing else is going on), no match through a copy was finished for %v", m.Kind, n, add, took, gap)
		if gap > waitGap && add < 4*waitAdd {
			n += n / 2 // to be sure
			took *= 2
		}
	}
	return fmt.Errorf("%s", worst)
}

// race adds the slow pattern while others are matching. It tells the longest time in which none of the matches of
// one of them was finished, how long the addition took, and how many matches there were.
func (m *WaitCase) race(n int, r *Rec) (time.Duration, time.Duration, int, error) {
	q, err := m.base()
	if err != nil {
		return 0, 0, 0, err
	}
	ts := m.slow(n)
	var want []string
	for i := 0; i < 3*len(m.H.Evs); i++ {
		xs, err := q.MatchesForEvent(m.event(i))
		if err != nil {
			return 0, 0, 0, fmt.Errorf("event %s: unexpected error %v", m.event(i), err)
		}
		want = append(want, strings.Join(xkeys(xs), " "))
	}
	runtime.GC()
	var stop atomic.Bool
	var ready, wg sync.WaitGroup
	gaps := make([]time.Duration, m.Matchers)
	counts := make([]int, m.Matchers)
	errs := make([]error, m.Matchers)
	var addStart, addEnd time.Time
	started := make(chan struct{})
	for w := 0; w < m.Matchers; w++ {
		k := q.Copy()
		ready.Add(1)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			<-started
			last := time.Now()
			for i := w; ; i++ {
				done := stop.Load()
				e := i % len(want)
				if m.Fresh > 0 && i%m.Fresh == 0 {
					k = k.Copy()
				}
				xs, err := k.MatchesForEvent(m.event(e))
				now := time.Now()
				gaps[w] = max(gaps[w], now.Sub(last))
				last = now
				if err != nil || strings.Join(xkeys(xs), " ") != want[e] {
					errs[w] = fmt.Errorf("%s, size %d: event %s: got %v %v, want %s", m.Kind, n, m.event(e), xs, err, want[e])
					return
				}
				counts[w]++
				if done {
					return
				}
			}
		}()
	}
	ready.Wait()
	close(started)
	time.Sleep(5 * time.Millisecond)
	addStart = time.Now()
	var adderr error
	for _, t := range ts {
		if err := q.AddPattern("slow", t); err != nil {
			adderr = fmt.Errorf("%s, size %d: AddPattern: unexpected error %v", m.Kind, n, err)
		}
	}
	addEnd = time.Now()
	stop.Store(true)
	wg.Wait()
	gap, count := time.Duration(0), 0
	for w := range gaps {
		gap = max(gap, gaps[w])
		count += counts[w]
		if errs[w] != nil {
			return 0, 0, 0, errs[w]
		}
	}
	return gap, addEnd.Sub(addStart), count, adderr
}

func init() {
	all := kindW(kS, 30, kN, 10, kLit, 8, kPrefix, 8, kExT, 6, kExF, 6, kAB, 6, kWild, 6, kShell, 5, kEIC, 4)
	mixed := Profile{Kinds: all, Paths: [2]int{1, 5}, Pats: [2]int{1, 8}, Evs: [2]int{1, 8}, Fields: [2]int{1, 3}, Alts: [2]int{1, 3}, Depth: 4, ArrayPct: 12, MixPct: 25, StrMax: 6, EmptyPct: 5, RX: lightRX, WildNames: true}
	hg := histGen{prof: mixed, ops: [2]int{1, 1}, add: 1, xs: [2]int{1, 3}, del: 40, xkinds: true, flat: 10}
	register(&Prop{ID: "C28", Rule: "non-trivial: the addition took long, and there were more than 200 matches",
		Subs: []*Sub{
			{Name: "progress", Quick: 64, Thorough: 2000, Workers: 2, NoShrink: true, New: func() any { return &WaitCase{} }, Check: checkWait,
				Gen: func(g *G, idx int) any {
					c := &WaitCase{Kind: slowKinds[idx%len(slowKinds)], H: hg.gen(g), N: 2000, Matchers: g.R(1, 3)}
					c.H.Ops = nil
					c.Same = g.B()
					if g.P(1, 3) {
						c.Fresh = g.R(1, 20)
					}
					return c
				},
				Rule: "random patterns and events; while an addition that takes 0.25 s or more is in progress, 1 to 3 copies match, and now and then are copied; none may have to wait for the addition; non-trivial: the addition took long, and there were more than 200 matches"},
		}})
}
