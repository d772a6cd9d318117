package main

// C19: histories made by several goroutines, each with its own copy. C20: histories on separate instances.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	quamina "quamina.net/go/quamina/v2"
)

// guard runs part of a case in a goroutine of its own.
func guard(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if m, ok := e.(modelTooDeep); ok {
				_ = m
				err = errTooDeep
				return
			}
			st := string(debug.Stack())
			if i, ok := e.(infra); ok {
				err = i
			} else if strings.Contains(st, "quamina.net/go/quamina") {
				err = fmt.Errorf("panic in quamina: %v\n%s", e, trimStack(st))
			} else {
				err = infra{fmt.Sprintf("panic: %v\n%s", e, st)}
			}
		}
	}()
	return f()
}

var errTooDeep = errors.New("too deep for the model")

// TCase: Pre is done by one goroutine, then each of Threads runs its operations on its own copy. When Hook is
// set there is just one thread, whose flattener does the operations of During, on other copies, between the two
// phases of each of the matches.
type TCase struct {
	Del     bool    `json:"del,omitempty"`
	Flat    bool    `json:"flat,omitempty"`
	Pats    []HPat  `json:"pats"`
	Evs     []MEv   `json:"evs"`
	Pre     []HOp   `json:"pre,omitempty"`
	Threads [][]HOp `json:"threads,omitempty"`
	Yield   int     `json:"yield,omitempty"`
	Hook    bool    `json:"hook,omitempty"`
	During  [][]HOp `json:"during,omitempty"` // for the i-th match of the thread: before and after reading the event
	Reps    int     `json:"reps,omitempty"`
	Pad     int     `json:"pad,omitempty"` // bytes of something irrelevant at the start of each event, to make reading it take time
}

type tRec struct {
	k          string // add del ev
	start, end int64
	x          string
	p, e       int
	got        map[string]bool
	xs, kept   []quamina.X
	thread, op int
}

type tThread struct {
	id   int
	q    *quamina.Quamina
	recs []tRec
	err  error
}

type tRun struct {
	c     *TCase
	clock atomic.Int64
	pats  []string
	evs   [][]byte
}

func (t *tRun) do(th *tThread, oi int, op *HOp) error {
	c := t.c
	r := tRec{k: op.K, x: op.X, p: op.P, e: op.E, thread: th.id, op: oi}
	switch op.K {
	case "add":
		r.start = t.clock.Add(1)
		err := th.q.AddPattern(op.X, t.pats[op.P])
		r.end = t.clock.Add(1)
		if err != nil {
			return fmt.Errorf("AddPattern(%s): unexpected error %v", clip(t.pats[op.P], 300), err)
		}
		th.recs = append(th.recs, r)
	case "del":
		r.start = t.clock.Add(1)
		err := th.q.DeletePatterns(op.X)
		r.end = t.clock.Add(1)
		if (err == nil) != c.Del {
			return fmt.Errorf("DeletePatterns: error %v", err)
		}
		if err == nil {
			th.recs = append(th.recs, r)
		}
	case "bad":
		if err := th.q.AddPattern(op.X, op.T); err == nil {
			return fmt.Errorf("AddPattern(%s): an error was expected", clip(op.T, 300))
		}
	case "ev":
		n := max(1, op.N)
		for k := 0; k < n; k++ {
			r := r
			ev := append([]byte(nil), t.evs[op.E]...)
			r.start = t.clock.Add(1)
			xs, err := th.q.MatchesForEvent(ev)
			r.end = t.clock.Add(1)
			if err != nil {
				return fmt.Errorf("event %s: unexpected error %v", clip(c.Evs[op.E].Text, 400), err)
			}
			if r.got, err = xset(xs); err != nil {
				return fmt.Errorf("event %s: %v", clip(c.Evs[op.E].Text, 400), err)
			}
			r.xs, r.kept = xs, append([]quamina.X(nil), xs...)
			th.recs = append(th.recs, r)
			if c.Yield > 0 && k%c.Yield == 0 {
				runtime.Gosched()
			}
		}
	case "copy":
		th.q = th.q.Copy()
	case "mode":
		if err := setSpeed(th.q, op.S); err != nil {
			return err
		}
		if got := th.q.GetMatcherBuildMode(); (got == quamina.BuiltForSpeed) != op.S {
			return fmt.Errorf("the build mode is %v after setting speed=%v", got, op.S)
		}
	}
	return nil
}

// explain judges all matches by the additions and deletions around them.
func (t *tRun) explain(recs []tRec, r *Rec) error {
	c := t.c
	var ixs []*evIndex
	for i := range c.Evs {
		ixs = append(ixs, indexEvent(c.Evs[i].V))
	}
	tri := map[[2]int]Tri{}
	verdict := func(p, e int) Tri {
		k := [2]int{p, e}
		v, ok := tri[k]
		if !ok {
			v = patMatches(c.Pats[p].P, ixs[e])
			tri[k] = v
		}
		return v
	}
	adds, dels := map[string][]*tRec{}, map[string][]*tRec{}
	for i := range recs {
		switch recs[i].k {
		case "add":
			adds[recs[i].x] = append(adds[recs[i].x], &recs[i])
		case "del":
			dels[recs[i].x] = append(dels[recs[i].x], &recs[i])
		}
	}
	names := sortedKeys(adds)
	overlaps := 0
	for i := range recs {
		m := &recs[i]
		if m.k != "ev" {
			continue
		}
		if !reflect.DeepEqual(m.xs, m.kept) && len(m.kept) > 0 {
			return fmt.Errorf("the result of operation %d of thread %d was %v when returned and is %v now", m.op, m.thread, m.kept, m.xs)
		}
		for x := range m.got {
			if _, ok := adds[x]; !ok {
				return fmt.Errorf("event %s: %s was never added", clip(c.Evs[m.e].Text, 400), x)
			}
		}
		for _, x := range names {
			must, may := false, false
			var about []string
			for _, a := range adds[x] {
				v := verdict(a.p, m.e)
				if a.start < m.end && a.end > m.start {
					overlaps++
				}
				if v == No || a.start > m.end {
					continue
				}
				gone, perhaps := false, false
				for _, d := range dels[x] {
					if d.start > a.end && d.end < m.start {
						gone = true
					}
					if d.end > a.start && d.start < m.end {
						perhaps = true
					}
				}
				may = may || !gone
				must = must || v == Yes && a.end < m.start && !perhaps
				about = append(about, fmt.Sprintf("%s added %d-%d (deleted before: %v, perhaps: %v)", clip(c.Pats[a.p].Text, 300), a.start, a.end, gone, perhaps))
			}
			if must && r != nil {
				r.NonTrivial()
			}
			if must && !m.got[x] {
				return fmt.Errorf("thread %d operation %d, at %d-%d: event %s does not give %s: %s", m.thread, m.op, m.start, m.end, clip(c.Evs[m.e].Text, 400), x, strings.Join(about, "; "))
			}
			if m.got[x] && !may {
				return fmt.Errorf("thread %d operation %d, at %d-%d: event %s gives %s, which nothing explains: %s %s", m.thread, m.op, m.start, m.end, clip(c.Evs[m.e].Text, 400), x, strings.Join(about, "; "), addsOf(c, adds[x]))
			}
		}
	}
	if r != nil && overlaps > 0 {
		r.Label("a match overlapped an addition")
	}
	return nil
}

func addsOf(c *TCase, as []*tRec) string {
	var out []string
	for _, a := range as {
		out = append(out, clip(c.Pats[a.p].Text, 200))
	}
	return "(patterns of this identifier: " + strings.Join(out, " ") + ")"
}

func checkT(c any, r *Rec) error {
	m := c.(*TCase)
	for i := 0; i < max(1, m.Reps); i++ {
		if err := runT(m, r); err != nil {
			if errors.Is(err, errTooDeep) {
				r.skip = true
				return nil
			}
			return err
		}
	}
	return nil
}

func runT(m *TCase, r *Rec) error {
	t := &tRun{c: m}
	for _, p := range m.Pats {
		t.pats = append(t.pats, p.Text)
	}
	for _, e := range m.Evs {
		txt := e.Text
		if at := strings.IndexByte(txt, '{'); m.Pad > 0 && at >= 0 {
			comma := ","
			if strings.HasPrefix(strings.TrimLeft(txt[at+1:], " \t\r\n"), "}") {
				comma = ""
			}
			txt = txt[:at+1] + `"zzpad":"` + strings.Repeat("pad ", m.Pad/4) + `"` + comma + txt[at+1:]
		}
		t.evs = append(t.evs, []byte(txt))
	}
	var opts []quamina.Option
	if m.Del {
		opts = append(opts, quamina.WithPatternDeletion(true))
	}
	var rf *refFlattener
	if m.Flat || m.Hook {
		rf = &refFlattener{}
		opts = append(opts, quamina.WithFlattener(rf))
	}
	root := &tThread{id: -1, q: mustNew(opts...)}
	for i := range m.Pre {
		if err := t.do(root, i, &m.Pre[i]); err != nil {
			return fmt.Errorf("before the threads, operation %d: %v", i, err)
		}
	}
	var ths []*tThread
	for i := range m.Threads {
		ths = append(ths, &tThread{id: i, q: root.q.Copy()})
	}
	if m.Hook {
		others := []*tThread{{id: 100, q: root.q.Copy()}, {id: 101, q: root.q.Copy()}}
		n := 0
		var herr error
		side := func(k int) {
			if k >= len(m.During) {
				return
			}
			for i := range m.During[k] {
				op := &m.During[k][i]
				o := others[op.I%2]
				if err := t.do(o, i, op); err != nil && herr == nil {
					herr = fmt.Errorf("during match %d: %v", k/2, err)
				}
			}
		}
		rf.hook = func(quamina.SegmentsTreeTracker, []byte) error { side(2 * n); return nil }
		rf.after = func() { side(2*n + 1); n++ }
		th := &tThread{id: 0, q: root.q}
		for i := range m.Threads[0] {
			if err := t.do(th, i, &m.Threads[0][i]); err != nil {
				return fmt.Errorf("operation %d: %v", i, err)
			}
			if herr != nil {
				return herr
			}
		}
		rf.hook, rf.after = nil, nil
		ths = append([]*tThread{th}, others...)
	} else {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for _, th := range ths {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				th.err = guard(func() error {
					for i := range m.Threads[th.id] {
						if err := t.do(th, i, &m.Threads[th.id][i]); err != nil {
							return fmt.Errorf("thread %d operation %d: %v", th.id, i, err)
						}
					}
					return nil
				})
			}()
		}
		close(gate)
		wg.Wait()
	}
	recs := root.recs
	for _, th := range ths {
		if th.err != nil {
			return th.err
		}
		recs = append(recs, th.recs...)
	}
	// afterwards: every event through the first instance, a copy made before and a copy made now
	last := []*tThread{{id: -2, q: root.q}, {id: -4, q: root.q.Copy()}}
	for _, th := range ths {
		last = append(last, &tThread{id: -3, q: th.q})
	}
	for i, th := range last {
		if i > 3 {
			break
		}
		for e := range m.Evs {
			if err := t.do(th, e, &HOp{K: "ev", E: e}); err != nil {
				return fmt.Errorf("afterwards: %v", err)
			}
		}
		recs = append(recs, th.recs...)
	}
	if err := t.explain(recs, r); err != nil {
		return err
	}
	if !m.Del {
		return nil
	}
	return nil
}

type threadGen struct {
	prof    Profile
	threads [2]int
	pre     [2]int
	ops     [2]int
	repeat  [2]int
	del     int
	shared  int // percent of cases in which threads share identifiers
	delw    int
	reps    int
	hook    bool
	pad     int
	burst   int // percent of cases in which one thread does all the additions
}

func (tg *threadGen) gen(g *G, idx int) any {
	p := tg.prof
	v := genVocab(g, &p)
	c := &TCase{Del: g.P(tg.del, 100), Flat: g.P(10, 100), Hook: tg.hook, Reps: tg.reps}
	var pats []*Pat
	nd := 0
	for i, n := 0, g.R(p.Pats[0], p.Pats[1]); i < n; i++ {
		pat := v.pattern(g)
		for _, f := range pat.F {
			for j := range f.Alts {
				nd += isNondet(&f.Alts[j])
			}
		}
		pats = append(pats, pat)
		c.Pats = append(c.Pats, HPat{Text: g.patText(pat, style{}, true), P: pat})
	}
	for i, n := 0, g.R(p.Evs[0], p.Evs[1]); i < n; i++ {
		e := v.event(g, pats)
		c.Evs = append(c.Evs, MEv{Text: g.eventText(e, style{}), V: e})
	}
	shared := g.P(tg.shared, 100)
	next := 0
	own := map[int][]string{}
	newX := func(t int) string {
		next++
		x := fmt.Sprintf("P%d", next)
		own[t] = append(own[t], x)
		return x
	}
	anyX := func(t int) string {
		if shared && g.B() {
			return fmt.Sprintf("S%d", g.N(4))
		}
		if l := own[t]; len(l) > 0 && g.P(2, 3) {
			return pick(g, l)
		}
		return newX(t)
	}
	speed := nd <= 3
	op := func(t, add, ev, del, bad, misc int) HOp {
		del = del * tg.delw
		if !c.Del {
			del = 0
		}
		switch g.W(add, ev, del, bad, misc) {
		case 0:
			return HOp{K: "add", X: anyX(t), P: g.N(len(c.Pats))}
		case 1:
			return HOp{K: "ev", E: g.N(len(c.Evs)), N: g.R(tg.repeat[0], tg.repeat[1])}
		case 2:
			return HOp{K: "del", X: anyX(t)}
		case 3:
			return HOp{K: "bad", X: anyX(t), T: v.badPattern(g)}
		}
		// GetMatcherStats is documented not to be for use in parallel with AddPattern, so it's not here
		if g.B() {
			return HOp{K: "copy"}
		}
		return HOp{K: "mode", S: speed && g.B()}
	}
	for i, n := 0, g.R(tg.pre[0], tg.pre[1]); i < n; i++ {
		o := op(-1, 6, 1, 1, 0, 0)
		c.Pre = append(c.Pre, o)
	}
	own[0] = append(own[0], own[-1]...)
	if tg.hook {
		var th []HOp
		for i, n := 0, g.R(tg.ops[0], tg.ops[1]); i < n; i++ {
			th = append(th, HOp{K: "ev", E: g.N(len(c.Evs))})
		}
		c.Threads = [][]HOp{th}
		for range th {
			for k := 0; k < 2; k++ {
				var l []HOp
				for i, n := 0, g.W(4, 4, 2, 1); i < n; i++ {
					o := op(0, 6, 2, 3, 1, 0)
					o.I = g.N(2)
					if o.K == "ev" {
						// a match on another copy: its flattener has no hook
						o.N = pick(g, []int{1, 1, 1, 1300})
						if !c.Del {
							o.N = 1
						}
					}
					l = append(l, o)
				}
				c.During = append(c.During, l)
			}
		}
		return c
	}
	nt := g.R(tg.threads[0], tg.threads[1])
	burst := g.P(tg.burst, 100)
	c.Yield = pick(g, []int{0, 1, 3})
	if tg.pad > 0 {
		c.Pad = g.R(1000, tg.pad)
	}
	total := 0
	for t := 0; t < nt; t++ {
		var th []HOp
		for i, n := 0, g.R(tg.ops[0], tg.ops[1]); i < n; i++ {
			var o HOp
			switch {
			case burst && t == 0:
				o = op(t, 20, 0, 6, 1, 1)
			case burst:
				o = op(t, 0, 20, 0, 0, 1)
			default:
				o = op(t, 10, 8, 4, 1, 1)
			}
			if o.K == "add" {
				total++
				if total > 40 {
					o = HOp{K: "ev", E: g.N(len(c.Evs)), N: 1}
				}
			}
			th = append(th, o)
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

// ---- C20 ----

// PCase: histories on instances of their own.
type PCase struct {
	H        []*HCase `json:"h"`
	Sched    []int    `json:"sched,omitempty"` // which history goes on next; empty: all at the same time
	AloneAft bool     `json:"alone_after,omitempty"`
	Reps     int      `json:"reps,omitempty"`
}

func newP() any { return &PCase{} }

func checkP(c any, r *Rec) error {
	m := c.(*PCase)
	alone := make([][]string, len(m.H))
	runAlone := func() error {
		for i, h := range m.H {
			hr := newHistRun(h, r)
			if err := hr.run(); err != nil {
				return fmt.Errorf("history %d by itself: %v", i, err)
			}
			alone[i] = hr.results
		}
		return nil
	}
	if !m.AloneAft {
		if err := runAlone(); err != nil {
			return err
		}
	}
	for rep := 0; rep < max(1, m.Reps); rep++ {
		hrs := make([]*histRun, len(m.H))
		for i, h := range m.H {
			hrs[i] = newHistRun(h, nil)
		}
		if len(m.Sched) > 0 {
			at := make([]int, len(m.H))
			step := func(i int) error {
				if at[i] >= len(m.H[i].Ops) {
					return nil
				}
				err := hrs[i].step(at[i], &m.H[i].Ops[at[i]])
				if err != nil {
					err = fmt.Errorf("history %d operation %d, while others are under way: %v", i, at[i], err)
				}
				at[i]++
				return err
			}
			for _, i := range m.Sched {
				if err := step(i % len(m.H)); err != nil {
					return err
				}
			}
			for i := range m.H {
				for at[i] < len(m.H[i].Ops) {
					if err := step(i); err != nil {
						return err
					}
				}
			}
			for i := range hrs {
				if err := hrs[i].finish(); err != nil {
					return fmt.Errorf("history %d, after others: %v", i, err)
				}
			}
		} else {
			errs := make([]error, len(m.H))
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for i := range hrs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					errs[i] = guard(func() error {
						if err := hrs[i].run(); err != nil {
							return fmt.Errorf("history %d, at the same time as others: %v", i, err)
						}
						return nil
					})
				}()
			}
			close(gate)
			wg.Wait()
			for _, err := range errs {
				if errors.Is(err, errTooDeep) {
					r.skip = true
					return nil
				}
				if err != nil {
					return err
				}
			}
		}
		if m.AloneAft && rep == 0 {
			if err := runAlone(); err != nil {
				return err
			}
		}
		for i := range hrs {
			for k := range alone[i] {
				if alone[i][k] != hrs[i].results[k] {
					return fmt.Errorf("history %d: result %d is %s, but %s when the history is made by itself", i, k, hrs[i].results[k], alone[i][k])
				}
			}
		}
	}
	return nil
}

// checkCold runs the case in a process of its own, in which nothing has been cached yet.
func checkCold(c any, r *Rec) error {
	m := c.(*PCase)
	exe, err := os.Executable()
	if err != nil {
		panic(infra{err.Error()})
	}
	b, _ := json.Marshal(m)
	cmd := exec.Command(exe, "cold")
	cmd.Stdin = bytes.NewReader(b)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env = workerEnv()
	timer := time.AfterFunc(240*time.Second, func() { _ = cmd.Process.Kill() })
	defer timer.Stop()
	err = cmd.Run()
	if err == nil {
		if strings.Contains(out.String(), "nontrivial") {
			r.NonTrivial()
		}
		return nil
	}
	var ee *exec.ExitError
	if !errors.As(err, &ee) {
		panic(infra{err.Error()})
	}
	s := out.String()
	switch {
	case ee.ExitCode() == exitInfra:
		panic(infra{"cold process: " + firstLines(s, 20)})
	case ee.ExitCode() == exitRace:
		return fmt.Errorf("data race: %s", raceSummary(s))
	case ee.ExitCode() == 1 || fatalInQuamina(s):
		return fmt.Errorf("in a process of its own: %s", firstLines(s, 30))
	}
	panic(infra{fmt.Sprintf("cold process: exit %d: %s", ee.ExitCode(), firstLines(s, 20))})
}

func coldMain() int {
	var m PCase
	if err := json.NewDecoder(os.Stdin).Decode(&m); err != nil {
		fmt.Println(err)
		return exitInfra
	}
	r := &Rec{labels: map[string]int{}}
	err := runCheck(&Sub{Check: checkP}, &m, r)
	if err != nil {
		fmt.Println(err)
		var inf infra
		if errors.As(err, &inf) {
			return exitInfra
		}
		return 1
	}
	if r.nontrivial {
		fmt.Println("nontrivial")
	}
	return 0
}

type multiGen struct {
	hg    histGen
	n     [2]int
	sched bool
	after bool
	same  int // percent of cases in which the histories are the same
	twin  int // percent of cases in which they have patterns and events in common
	reps  int
}

// twin makes a history of the same patterns and events.
func twin(g *G, h *HCase) *HCase {
	c := *h
	c.Ops = nil
	nx := 1 + g.N(4)
	for _, o := range h.Ops {
		if o.K == "copy" {
			c.Ops = append(c.Ops, o)
			continue
		}
		switch g.W(5, 2, 1) {
		case 1:
			switch o.K {
			case "add":
				o.P = g.N(len(c.Pats))
				if g.B() {
					o.X = fmt.Sprintf("P%d", g.N(nx))
				}
			case "ev":
				o.E = g.N(len(c.Evs))
			case "del":
				o.X = fmt.Sprintf("P%d", g.N(nx))
			}
		case 2:
			continue
		}
		if k := len(c.Ops) - 1; k >= 0 && c.Ops[k].K != "copy" && o.K != "copy" && g.P(1, 5) {
			c.Ops = append(c.Ops[:k], o, c.Ops[k])
			continue
		}
		c.Ops = append(c.Ops, o)
	}
	return &c
}

func (mg *multiGen) gen(g *G, idx int) any {
	c := &PCase{AloneAft: mg.after && g.P(2, 3), Reps: mg.reps}
	n := g.R(mg.n[0], mg.n[1])
	same := g.P(mg.same, 100)
	twins := g.P(mg.twin, 100)
	for i := 0; i < n; i++ {
		if i > 0 && same {
			c.H = append(c.H, c.H[0])
		} else if i > 0 && twins {
			c.H = append(c.H, twin(g, c.H[0]))
		} else {
			c.H = append(c.H, mg.hg.gen(g))
		}
	}
	if mg.sched {
		tot := 0
		for _, h := range c.H {
			tot += len(h.Ops)
		}
		for i := 0; i < tot*3/2+1; i++ {
			c.Sched = append(c.Sched, g.N(n))
		}
	}
	return c
}

// concProf is what patterns and events are like where several goroutines are at work
var concProf = Profile{Kinds: kindW(kS, 24, kN, 10, kLit, 8, kPrefix, 8, kExT, 8, kExF, 10, kAB, 6, kWild, 8, kShell, 5, kEIC, 4, kRX, 5), Paths: [2]int{1, 5}, Pats: [2]int{3, 12}, Evs: [2]int{2, 6}, Fields: [2]int{1, 3}, Alts: [2]int{1, 3}, Depth: 3, ArrayPct: 8, MixPct: 25, StrMax: 6, EmptyPct: 2, RX: lightRX}

func tsub(name string, race bool, q, th int, tg threadGen, rule string) *Sub {
	return &Sub{Name: name, Quick: q, Thorough: th, Race: race, New: func() any { return &TCase{} }, Check: checkT, Gen: tg.gen, Rule: rule, NoShrink: !tg.hook}
}

func init() {
	conc := concProf
	narrow := conc
	narrow.Paths, narrow.Fields, narrow.Depth, narrow.StrMax = [2]int{1, 2}, [2]int{1, 2}, 1, 3
	absent := conc
	absent.Kinds = kindW(kS, 14, kN, 4, kLit, 4, kPrefix, 4, kExT, 12, kExF, 24, kAB, 4, kWild, 4)
	absent.Paths = [2]int{2, 6}
	register(&Prop{ID: "C19", Rule: "non-trivial: some match has to report an identifier on account of what returned before it",
		Subs: []*Sub{
			tsub("between", false, 20000, 300000, threadGen{prof: conc, pre: [2]int{0, 5}, ops: [2]int{1, 6}, repeat: [2]int{1, 2}, del: 50, delw: 1, hook: true},
				"one match at a time, whose flattener adds, deletes and matches on other copies before and after reading the event: a deterministic interleaving of the two phases of a match with other calls, rebuilds among them"),
			tsub("threads", false, 8000, 100000, threadGen{prof: conc, threads: [2]int{2, 5}, pre: [2]int{0, 4}, ops: [2]int{3, 14}, repeat: [2]int{1, 12}, del: 40, delw: 1, shared: 30, burst: 40},
				"2 to 5 goroutines with a copy each; every result must be explained by the timestamps of additions and deletions; all events again when they have finished"),
			tsub("narrow", false, 8000, 100000, threadGen{prof: narrow, threads: [2]int{2, 5}, pre: [2]int{0, 4}, ops: [2]int{3, 20}, repeat: [2]int{1, 30}, del: 60, delw: 2, shared: 30, burst: 40},
				"the same on one or two paths"),
			tsub("long", false, 3000, 80000, threadGen{prof: absent, threads: [2]int{2, 4}, pre: [2]int{0, 4}, ops: [2]int{3, 12}, repeat: [2]int{1, 8}, del: 30, delw: 1, shared: 30, burst: 60, pad: 60000},
				"events that take time to read, with many exists conditions, so that additions happen between the two phases of a match"),
			tsub("rebuilds", false, 400, 8000, threadGen{prof: narrow, threads: [2]int{2, 4}, pre: [2]int{3, 8}, ops: [2]int{6, 24}, repeat: [2]int{1, 300}, del: 100, delw: 3, shared: 30, burst: 20},
				"with enough matches for automatic rebuilds"),
			tsub("race", true, 3000, 60000, threadGen{prof: conc, threads: [2]int{2, 4}, pre: [2]int{0, 4}, ops: [2]int{3, 10}, repeat: [2]int{1, 6}, del: 40, delw: 1, shared: 30, burst: 30},
				"under the race detector"),
			tsub("race-rebuilds", true, 300, 6000, threadGen{prof: narrow, threads: [2]int{2, 4}, pre: [2]int{3, 8}, ops: [2]int{6, 24}, repeat: [2]int{1, 200}, del: 100, delw: 3, shared: 30, burst: 20},
				"under the race detector, with automatic rebuilds"),
		}})

	rich := conc
	rich.Kinds = kindW(kS, 14, kN, 6, kLit, 4, kPrefix, 5, kExT, 4, kExF, 4, kAB, 6, kWild, 8, kShell, 6, kEIC, 10, kRX, 14)
	rich.Pats, rich.WildNames = [2]int{2, 6}, true
	props := rich
	props.Kinds = kindW(kS, 4, kEIC, 6, kRX, 20)
	props.Pats, props.Paths, props.Fields, props.Alts = [2]int{1, 3}, [2]int{1, 2}, [2]int{1, 1}, [2]int{1, 2}
	props.RX = rxGen{depth: 1, maxSize: 3, counts: 2, props: true}
	hr := histGen{prof: rich, ops: [2]int{4, 16}, del: 40, add: 20, ev: 30, delw: 6, bad: 5, badev: 6, copyw: 3, mode: 4, xs: [2]int{1, 6}, pre: 1, flat: 10}
	hs := hr
	hs.prof = scaled(rich, scaleAll)
	hp := histGen{prof: props, ops: [2]int{2, 5}, del: 20, add: 20, ev: 30, xs: [2]int{1, 3}, pre: 1}
	psub := func(name string, race bool, q, th int, mg multiGen, check func(any, *Rec) error, rule string) *Sub {
		return &Sub{Name: name, Quick: q, Thorough: th, Race: race, New: newP, Check: check, Gen: mg.gen, Rule: rule, NoShrink: !mg.sched}
	}
	register(&Prop{ID: "C20", Rule: "non-trivial: some history has an event for which the model requires a match",
		Subs: []*Sub{
			psub("interleaved", false, 6000, 150000, multiGen{hg: hr, n: [2]int{2, 3}, sched: true, after: true}, checkP, "two or three histories (additions, refused ones, deletions, good and bad events, copies, build modes, custom flatteners) on instances of their own, one call at a time in random order; compared with the model and with each history made by itself, before or after"),
			psub("twins", false, 12000, 100000, multiGen{hg: hr, n: [2]int{2, 3}, sched: true, after: true, twin: 100}, checkP, "interleaved histories of the same patterns and events, with other additions, deletions and identifiers"),
			psub("twins-scale", false, 3000, 40000, multiGen{hg: hs, n: [2]int{2, 3}, sched: true, after: true, twin: 100}, checkP, "the same with large patterns and events: long strings, long lists, many fields, long and nested arrays"),
			psub("parallel", false, 6000, 80000, multiGen{hg: hr, n: [2]int{2, 5}, after: true, same: 20, twin: 30}, checkP, "2 to 5 histories at the same time, compared in the same way"),
			psub("race", true, 1500, 30000, multiGen{hg: hr, n: [2]int{2, 3}, after: true, same: 20, twin: 30}, checkP, "the same under the race detector"),
			psub("classes", false, 800, 16000, multiGen{hg: hp, n: [2]int{2, 3}, sched: true, after: true, twin: 40}, checkP, "interleaved histories with regexps using Unicode properties, which share what has been built for a property"),
			psub("cold", false, 400, 6000, multiGen{hg: hp, n: [2]int{3, 5}, after: true, same: 50}, checkCold, "parallel histories with Unicode properties in a process of their own, in which the first use of a property is a race"),
			psub("cold-race", true, 30, 600, multiGen{hg: hp, n: [2]int{3, 3}, after: true, same: 50}, checkCold, "the same under the race detector"),
		}})
}
