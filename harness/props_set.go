package main

// C15: independence of patterns. C22: custom flatteners. C24: options.

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	quamina "quamina.net/go/quamina/v2"
)

// ---- C15 ----

// UCase: the patterns together (in several orders, some added repeatedly) against each pattern alone.
type UCase struct {
	Texts  []string `json:"texts"`
	Xs     []int    `json:"xs"`     // identifier of each pattern
	Orders [][]int  `json:"orders"` // each adds all patterns at least once
	Subset []int    `json:"subset,omitempty"`
	Evs    []string `json:"evs"`
}

func checkUnion(c any, r *Rec) error {
	m := c.(*UCase)
	singles := make([][]bool, len(m.Texts))
	for i, t := range m.Texts {
		q := mustNew()
		if err := q.AddPattern("x", t); err != nil {
			return fmt.Errorf("AddPattern(%s): unexpected error %v", clip(t, 500), err)
		}
		for _, e := range m.Evs {
			xs, err := q.MatchesForEvent([]byte(e))
			if err != nil {
				return fmt.Errorf("event %s: unexpected error %v", clip(e, 500), err)
			}
			if len(xs) > 1 {
				return fmt.Errorf("event %s: %v for one pattern %s", clip(e, 500), xs, clip(t, 500))
			}
			singles[i] = append(singles[i], len(xs) == 1)
		}
	}
	try := func(order []int, ids func(i int) int, what string) error {
		q := mustNew()
		in := map[int]bool{}
		for _, i := range order {
			in[i] = true
			if err := q.AddPattern(ids(i), m.Texts[i]); err != nil {
				return fmt.Errorf("%s: AddPattern(%s): unexpected error %v", what, clip(m.Texts[i], 500), err)
			}
		}
		for k, e := range m.Evs {
			xs, err := q.MatchesForEvent([]byte(e))
			if err != nil {
				return fmt.Errorf("event %s: unexpected error %v", clip(e, 500), err)
			}
			got := map[int]bool{}
			for _, x := range xs {
				n, ok := x.(int)
				if !ok || got[n] {
					return fmt.Errorf("%s: event %s: bad or repeated identifier in %v", what, clip(e, 500), xs)
				}
				got[n] = true
			}
			want := map[int]bool{}
			for i := range m.Texts {
				if in[i] && singles[i][k] {
					want[ids(i)] = true
				}
			}
			if len(want) > 0 {
				r.NonTrivial()
				r.Label("event with a match")
			}
			r.LabelIf(len(want) > 1, "event with several matches")
			if !reflect.DeepEqual(got, want) {
				s := ""
				for i := range m.Texts {
					if in[i] && got[ids(i)] != want[ids(i)] {
						s += fmt.Sprintf(" %d=%s (alone: %v)", ids(i), clip(m.Texts[i], 300), singles[i][k])
						if len(s) > 1500 {
							break
						}
					}
				}
				return fmt.Errorf("%s: event %s: %v reported together, %v alone; differing:%s", what, clip(e, 800), keysI(got), keysI(want), s)
			}
		}
		return nil
	}
	own := func(i int) int { return i }
	for k, o := range m.Orders {
		if err := try(o, own, fmt.Sprintf("order %d", k)); err != nil {
			return err
		}
	}
	if len(m.Subset) > 0 {
		if err := try(m.Subset, own, "part of the set"); err != nil {
			return err
		}
	}
	if len(m.Xs) == len(m.Texts) {
		return try(m.Orders[0], func(i int) int { return m.Xs[i] }, "several patterns per identifier")
	}
	return nil
}

func keysI(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func genUnion(prof Profile, orders int) func(g *G, idx int) any {
	return func(g *G, idx int) any {
		p := prof
		v := genVocab(g, &p)
		c := &UCase{}
		var pats []*Pat
		n := g.R(p.Pats[0], p.Pats[1])
		for i := 0; i < n; i++ {
			pat := v.pattern(g)
			pats = append(pats, pat)
		}
		var evs []*Val
		for i, k := 0, g.R(p.Evs[0], p.Evs[1]); i < k; i++ {
			evs = append(evs, v.event(g, pats))
		}
		if p.Scale != (scaleW{}) {
			pats = scaleUp(g, p.Scale, pats, evs, v)
			n = len(pats)
		}
		for _, pat := range pats {
			c.Texts = append(c.Texts, g.patText(pat, genStyle(g), true))
		}
		for _, e := range evs {
			c.Evs = append(c.Evs, g.eventText(e, genStyle(g)))
		}
		for k := 0; k < orders; k++ {
			o := g.perm(n)
			for j, l := 0, g.N(4); k > 0 && j < l; j++ {
				at := g.N(len(o) + 1)
				o = append(o[:at], append([]int{g.N(n)}, o[at:]...)...)
			}
			c.Orders = append(c.Orders, o)
		}
		for i := 0; i < n; i++ {
			if g.B() {
				c.Subset = append(c.Subset, i)
			}
			c.Xs = append(c.Xs, g.N(n/2+1))
		}
		return c
	}
}

// ---- C22 ----

// FCase: patterns added one after the other (Bad: refused texts in between), events after each.
type FCase struct {
	Pats []HPat   `json:"pats"`
	Bad  []string `json:"bad,omitempty"`
	Evs  []MEv    `json:"evs"`
	Seed int      `json:"seed"` // of the orders of fields
}

var errFromFlattener = errors.New("an error of the flattener's own")

// verifyTracker compares what a tracker says with the paths added.
func verifyTracker(t quamina.SegmentsTreeTracker, n *mnode, path string, root bool, names []string) error {
	if t == nil {
		return fmt.Errorf("no tracker at %q", path)
	}
	if t.IsRoot() != root {
		return fmt.Errorf("IsRoot at %q is %v", path, t.IsRoot())
	}
	nodes, fields := 0, 0
	for _, k := range n.kids {
		if k.field {
			fields++
		}
		if len(k.kids) > 0 {
			nodes++
		}
	}
	if t.NodesCount() != nodes || t.FieldsCount() != fields {
		return fmt.Errorf("at %q the tracker counts %d nodes and %d fields, the patterns have %d and %d", path, t.NodesCount(), t.FieldsCount(), nodes, fields)
	}
	for _, name := range names {
		if n.kids[name] == nil && t.IsSegmentUsed([]byte(name)) {
			return fmt.Errorf("at %q the segment %q is called used, but no pattern has it", path, name)
		}
		if k := n.kids[name]; k == nil || len(k.kids) == 0 {
			if _, ok := t.Get([]byte(name)); ok {
				return fmt.Errorf("at %q Get(%q) finds a node, but no pattern has one there", path, name)
			}
		}
	}
	for name, k := range n.kids {
		if !t.IsSegmentUsed([]byte(name)) {
			return fmt.Errorf("at %q the segment %q is called unused", path, name)
		}
		p := name
		if !root {
			p = path + "\n" + name
		}
		if k.field {
			if got := string(t.PathForSegment([]byte(name))); got != p {
				return fmt.Errorf("at %q PathForSegment(%q) is %q", path, name, got)
			}
		}
		if len(k.kids) > 0 {
			kt, ok := t.Get([]byte(name))
			if !ok {
				return fmt.Errorf("at %q Get(%q) finds nothing", path, name)
			}
			if err := verifyTracker(kt, k, p, false, names); err != nil {
				return err
			}
		}
	}
	return nil
}

func checkFlat(c any, r *Rec) error {
	m := c.(*FCase)
	mention := newMnode()
	var names []string
	seen := map[string]bool{"zz": true}
	names = append(names, "zz")
	for _, p := range m.Pats {
		for _, f := range p.P.F {
			for _, s := range f.Path {
				if !seen[s] {
					seen[s] = true
					names = append(names, s)
				}
			}
		}
	}
	// what the hook saw go wrong, and what it is to do
	var trackerErr error
	calls := 0
	fail := false
	var wantEvent string
	hook := func(t quamina.SegmentsTreeTracker, ev []byte) error {
		calls++
		if string(ev) != wantEvent && trackerErr == nil {
			trackerErr = fmt.Errorf("the flattener was given %q for the event %q", clip(string(ev), 300), clip(wantEvent, 300))
		}
		if err := verifyTracker(t, mention, "", true, names); err != nil && trackerErr == nil {
			trackerErr = err
		}
		if fail {
			return errFromFlattener
		}
		return nil
	}
	og := newG(uint64(m.Seed), "order", 0)
	order := func(n int) []int { return og.perm(n) }
	// an array is identified by any number that's not another's, and of positions it only matters whether they're the same
	mul, add := int32(og.N(1<<30)*2+1), int32(og.N(1<<31))
	number := func(a quamina.ArrayPos) quamina.ArrayPos {
		return quamina.ArrayPos{Array: a.Array*mul + add, Pos: a.Pos*int32(1+m.Seed%5) + int32(m.Seed%3)}
	}
	mk := func(f *refFlattener) *quamina.Quamina { return mustNew(quamina.WithFlattener(f)) }
	type sys struct {
		name   string
		q      *quamina.Quamina
		custom bool
	}
	systems := []sys{{"built-in", mustNew(), false},
		{"asked", mk(&refFlattener{hook: hook}), true},
		{"asked, shuffled", mk(&refFlattener{hook: hook, order: order, number: number}), true},
		{"all", mk(&refFlattener{hook: hook, all: true}), true},
		{"all, shuffled", mk(&refFlattener{hook: hook, all: true, order: order}), true}}
	for i, n := 1, len(systems); i < n; i++ {
		systems = append(systems, sys{systems[i].name + ", copy", systems[i].q.Copy(), true})
	}
	nown := 5
	match := func(i int, e *MEv) ([]any, error) {
		wantEvent = e.Text
		before := calls
		xs, err := systems[i].q.MatchesForEvent([]byte(e.Text))
		if trackerErr != nil {
			return nil, fmt.Errorf("flattener %q: %v", systems[i].name, trackerErr)
		}
		if systems[i].custom && calls != before+1 {
			return nil, fmt.Errorf("flattener %q was called %d times for one event", systems[i].name, calls-before)
		}
		out := make([]any, len(xs))
		for k := range xs {
			out[k] = xs[k]
		}
		return out, err
	}
	for pi := -1; pi < len(m.Pats); pi++ {
		if pi >= 0 {
			for i := 0; i < nown; i++ {
				if pi < len(m.Bad) && m.Bad[pi] != "" {
					if err := systems[i].q.AddPattern("bad", m.Bad[pi]); err == nil {
						return fmt.Errorf("AddPattern(%s): an error was expected", clip(m.Bad[pi], 300))
					}
				}
				if err := systems[i].q.AddPattern(fmt.Sprintf("P%d", pi), m.Pats[pi].Text); err != nil {
					return fmt.Errorf("AddPattern(%s): unexpected error %v", clip(m.Pats[pi].Text, 400), err)
				}
			}
			for _, f := range m.Pats[pi].P.F {
				n := mention
				for _, s := range f.Path {
					n = n.kid(s)
				}
				n.field = true
			}
		}
		for k := range m.Evs {
			if pi >= 0 && pi < len(m.Pats)-1 && (k != pi%len(m.Evs) || pi > 16 && pi%(1+len(m.Pats)/16) > 0) {
				continue
			}
			ix := indexEvent(m.Evs[k].V)
			want := map[string]Tri{}
			for j := 0; j <= pi; j++ {
				want[fmt.Sprintf("P%d", j)] = patMatches(m.Pats[j].P, ix)
			}
			first := ""
			for i := range systems {
				xs, err := match(i, &m.Evs[k])
				if err != nil {
					return fmt.Errorf("event %s: %v", clip(m.Evs[k].Text, 500), err)
				}
				var qx []quamina.X
				for _, x := range xs {
					qx = append(qx, x)
				}
				got, err := xset(qx)
				if err != nil {
					return err
				}
				missing, extra := compare(got, want)
				if len(missing)+len(extra) > 0 {
					return fmt.Errorf("flattener %q: event %s: got %s; missing %v; must not match %v", systems[i].name, clip(m.Evs[k].Text, 700), xnames(got), missing, extra)
				}
				if i == 0 {
					first = xnames(got)
					r.NonTrivialIf(len(got) > 0)
					r.LabelIf(len(got) > 0, "event with a match")
				} else if first != xnames(got) {
					return fmt.Errorf("flattener %q: event %s: got %s, but %s with the built-in one", systems[i].name, clip(m.Evs[k].Text, 700), xnames(got), first)
				}
			}
		}
	}
	if len(m.Evs) > 0 {
		fail = true
		for i := 1; i < len(systems); i++ {
			xs, err := match(i, &m.Evs[0])
			if err != errFromFlattener {
				return fmt.Errorf("flattener %q returned an error of its own, MatchesForEvent returned %v", systems[i].name, err)
			}
			if len(xs) > 0 {
				return fmt.Errorf("flattener %q returned an error, but there are matches %v", systems[i].name, xs)
			}
			r.Label("flattener error")
		}
		fail = false
		for i := 1; i < len(systems); i++ {
			if _, err := match(i, &m.Evs[0]); err != nil {
				return fmt.Errorf("flattener %q: after an error: %v", systems[i].name, err)
			}
		}
	}
	return nil
}

func genFlat(prof Profile) func(g *G, idx int) any {
	return func(g *G, idx int) any {
		p := prof
		v := genVocab(g, &p)
		c := &FCase{Seed: g.N(1 << 16)}
		var pats []*Pat
		for i, n := 0, g.R(p.Pats[0], p.Pats[1]); i < n; i++ {
			pats = append(pats, v.pattern(g))
			bad := ""
			if g.P(1, 4) {
				bad = v.badPattern(g)
			}
			c.Bad = append(c.Bad, bad)
		}
		var evs []*Val
		for i, n := 0, g.R(p.Evs[0], p.Evs[1]); i < n; i++ {
			evs = append(evs, v.event(g, pats))
		}
		if p.Scale != (scaleW{}) {
			pats = scaleUp(g, p.Scale, pats, evs, v)
		}
		for _, pat := range pats {
			c.Pats = append(c.Pats, HPat{g.patText(pat, genStyle(g), true), pat})
		}
		for _, e := range evs {
			c.Evs = append(c.Evs, MEv{g.eventText(e, genStyle(g)), e})
		}
		return c
	}
}

// ---- C24 ----

// OCase: a sequence of options.
type OCase struct {
	Opts []string `json:"opts"`
}

type nullStorage struct{}

func (nullStorage) Add(x quamina.X, p string, b quamina.MatcherBuildMode) error { return nil }
func (nullStorage) Delete(x quamina.X) (int, error)                             { return 0, nil }
func (nullStorage) Iterate(func(quamina.X, string, quamina.MatcherBuildMode) error) error {
	return nil
}
func (nullStorage) Contains(x quamina.X) (bool, error) { return false, nil }

var optNames = []string{"media:application/json", "media:text/xml", "media:", "flattener", "flattener:nil", "delete:true", "delete:false", "storage", "storage:nil", "media:application/JSON"}

type countFlattener struct {
	refFlattener
	n *int
}

func (f *countFlattener) Flatten(ev []byte, t quamina.SegmentsTreeTracker) ([]quamina.Field, error) {
	*f.n++
	return f.refFlattener.Flatten(ev, t)
}
func (f *countFlattener) Copy() quamina.Flattener { return &countFlattener{n: f.n} }

func checkOpts(c any, r *Rec) error {
	m := c.(*OCase)
	var opts []quamina.Option
	media, flat, del, wantDel, ok := 0, 0, 0, false, true
	calls := 0
	for _, o := range m.Opts {
		switch o {
		case "flattener":
			opts = append(opts, quamina.WithFlattener(&countFlattener{n: &calls}))
			flat++
		case "flattener:nil":
			opts = append(opts, quamina.WithFlattener(nil))
			ok = false
		case "delete:true", "delete:false":
			wantDel = o == "delete:true"
			opts = append(opts, quamina.WithPatternDeletion(wantDel))
			del++
		case "storage":
			opts = append(opts, quamina.WithPatternStorage(nullStorage{}))
			ok = false
		case "storage:nil":
			opts = append(opts, quamina.WithPatternStorage(nil))
			ok = false
		case "media:application/json":
			opts = append(opts, quamina.WithMediaType("application/json"))
			media++
		default:
			mt := o[len("media:"):]
			opts = append(opts, quamina.WithMediaType(mt))
			if media++; mt != "application/json" {
				ok = false
			}
		}
	}
	ok = ok && media <= 1 && flat <= 1 && media+flat <= 1 && del <= 1
	var prev *quamina.Quamina
	for round := 0; round < 2; round++ { // the same options can serve more than one instance
		q, err := quamina.New(opts...)
		if !ok {
			r.Label("not permitted")
			if err == nil {
				return fmt.Errorf("New(%v) succeeded", m.Opts)
			}
			if q != nil {
				return fmt.Errorf("New(%v) failed with %v, but returned an instance", m.Opts, err)
			}
			continue
		}
		r.Label("permitted")
		r.NonTrivial()
		if err != nil || q == nil {
			return fmt.Errorf("New(%v): %v, %v", m.Opts, q, err)
		}
		if err := useInstance(q, flat == 1, &calls, wantDel); err != nil {
			return fmt.Errorf("New(%v): %v", m.Opts, err)
		}
		mine, ev := fmt.Sprintf(`{"only%d":[1]}`, round), []byte(`{"only0":1,"only1":1}`)
		if err := q.AddPattern(mine, mine); err != nil {
			return err
		}
		for _, x := range []*quamina.Quamina{q, prev} {
			if x == nil {
				continue
			}
			if got, err := x.MatchesForEvent(ev); err != nil || len(got) != 1 || (got[0] == mine) != (x == q) {
				return fmt.Errorf("New(%v), twice with the same options: %v, %v", m.Opts, got, err)
			}
		}
		prev = q
	}
	return nil
}

// useInstance puts a new instance through its paces.
func useInstance(q *quamina.Quamina, flat bool, calls *int, del bool) error {
	want := func(q *quamina.Quamina, ev string, xs ...string) error {
		before := *calls
		got, err := q.MatchesForEvent([]byte(ev))
		if err != nil {
			return fmt.Errorf("event %s: %v", ev, err)
		}
		if n := *calls - before; flat && n != 1 || !flat && n != 0 {
			return fmt.Errorf("event %s: the flattener was called %d times", ev, n)
		}
		m, err := xset(got)
		if err != nil {
			return err
		}
		w := map[string]bool{}
		for _, x := range xs {
			w[x] = true
		}
		if !reflect.DeepEqual(m, w) {
			return fmt.Errorf("event %s: got %v, not %v", ev, got, xs)
		}
		return nil
	}
	if q.GetMatcherBuildMode() != quamina.BuiltForComfort {
		return fmt.Errorf("build mode %v", q.GetMatcherBuildMode())
	}
	if err := want(q, `{"a":1}`); err != nil {
		return err
	}
	if err := q.AddPattern("p", `{"a":[1]}`); err != nil {
		return err
	}
	if err := q.AddPattern("r", `{"a":[1, {"prefix":"x"}],"b":{"c":[{"exists":false}]}}`); err != nil {
		return err
	}
	cp := q.Copy()
	for _, x := range []*quamina.Quamina{q, cp} {
		if err := want(x, `{"a":1,"c":2}`, "p", "r"); err != nil {
			return err
		}
		if err := want(x, `{"a":1,"b":{"c":2}}`, "p"); err != nil {
			return err
		}
		before := x.GetMatcherStats()
		_, _ = x.SetMemoryBudget(1)
		_, _ = x.GetMemoryBudget()
		if !reflect.DeepEqual(before, x.GetMatcherStats()) {
			return fmt.Errorf("the memory budget calls changed the statistics")
		}
		if err := want(x, `{"a":"xyz"}`, "r"); err != nil {
			return err
		}
	}
	if err := q.AddPattern("w", `{"a":[{"wildcard":"*b*c"}]}`); err != nil {
		return fmt.Errorf("after SetMemoryBudget(1): %v", err)
	}
	if err := want(cp, `{"a":"abc"}`, "w"); err != nil {
		return err
	}
	for i, x := range []*quamina.Quamina{q, cp, q} {
		err := x.DeletePatterns([]string{"p", "w", "never"}[i])
		if (err == nil) != del {
			return fmt.Errorf("DeletePatterns: %v, deletion asked for: %v", err, del)
		}
	}
	for _, x := range []*quamina.Quamina{q, cp} {
		if del {
			if err := want(x, `{"a":1,"c":2}`, "r"); err != nil {
				return fmt.Errorf("after deletion: %v", err)
			}
			if err := want(x, `{"a":"abc"}`); err != nil {
				return fmt.Errorf("after deletion: %v", err)
			}
		} else {
			if err := want(x, `{"a":1,"c":2}`, "p", "r"); err != nil {
				return fmt.Errorf("after refused deletion: %v", err)
			}
			if err := want(x, `{"a":"abc"}`, "w"); err != nil {
				return fmt.Errorf("after refused deletion: %v", err)
			}
		}
	}
	return nil
}

func genOpts(g *G, idx int) any {
	n := len(optNames)
	total, pow := 0, 1
	for l := 0; l <= 5; l++ {
		if idx < total+pow {
			c := &OCase{}
			v := idx - total
			for k := 0; k < l; k++ {
				c.Opts = append(c.Opts, optNames[v%n])
				v /= n
			}
			return c
		}
		total += pow
		pow *= n
	}
	return nil
}

// genMedia makes media types that are nearly, or exactly, application/json, among other options.
func genMedia(g *G, idx int) any {
	m := "application/json"
	for i, n := 0, g.N(4); i < n; i++ {
		k := g.N(len(m) + 1)
		switch g.W(3, 2, 2, 3, 2, 2) {
		case 0: // a parameter, or white space
			m += pick(g, []string{";", "; charset=utf-8", ";charset=UTF-8", " ", "\t", "\n", ";q=1", ",text/plain", "+xml", "\x00", "/", "*"})
		case 1:
			m = pick(g, []string{" ", "\t", "\r\n", "*/", "vnd.", "x-", "text/json,", "/", "\ufeff"}) + m
		case 2: // another letter case
			if k < len(m) {
				m = m[:k] + strings.ToUpper(m[k:k+1]) + m[k+1:]
			}
		case 3: // without a character
			if k < len(m) {
				m = m[:k] + m[k+1:]
			}
		case 4:
			m = m[:k] + pick(g, []string{"a", "/", " ", "json", "vnd.api+", "ld+", "-", ".", "ſ"}) + m[k:]
		case 5:
			m = pick(g, []string{"application/json", "text/json", "application/*", "*/*", "json", "application", "application/cbor", "application/x-json", "application/problem+json", "application/jsonseq", "application/json-seq", "application/jsonlines"})
		}
	}
	c := &OCase{Opts: []string{"media:" + m}}
	for i, n := 0, g.N(3); i < n; i++ {
		o := pick(g, []string{"delete:true", "delete:false", "media:" + m, "flattener", "media:application/json"})
		if g.B() {
			c.Opts = append(c.Opts, o)
		} else {
			c.Opts = append([]string{o}, c.Opts...)
		}
	}
	return c
}

func init() {
	all := kindW(kS, 30, kN, 12, kLit, 8, kPrefix, 8, kExT, 6, kExF, 6, kAB, 8, kWild, 8, kShell, 6, kEIC, 5, kRX, 4)
	mixed := Profile{Kinds: all, Paths: [2]int{1, 6}, Pats: [2]int{2, 12}, Evs: [2]int{3, 10}, Fields: [2]int{1, 4}, Alts: [2]int{1, 3}, Depth: 3, ArrayPct: 12, MixPct: 25, StrMax: 6, EmptyPct: 8, RX: lightRX, WildNames: true}
	one := mixed
	one.Paths, one.Fields, one.Depth, one.Pats, one.Evs = [2]int{1, 1}, [2]int{1, 1}, 1, [2]int{3, 16}, [2]int{6, 14}
	large := mixed
	large.Paths, large.Pats, large.Evs, large.StrMax, large.ArrayPct = [2]int{4, 12}, [2]int{60, 300}, [2]int{8, 16}, 8, 3
	large.Kinds = kindW(kS, 40, kN, 12, kLit, 8, kPrefix, 10, kExT, 4, kExF, 4, kAB, 8, kWild, 3, kShell, 2, kEIC, 3, kRX, 1)
	large1 := large
	large1.Paths, large1.Fields, large1.Depth = [2]int{1, 2}, [2]int{1, 1}, 1
	newU := func() any { return &UCase{} }
	usub := func(name string, q, th int, p Profile, orders int, rule string) *Sub {
		return &Sub{Name: name, Quick: q, Thorough: th, New: newU, Check: checkUnion, Gen: genUnion(p, orders), Rule: rule}
	}
	register(&Prop{ID: "C15", Rule: "non-trivial: an event for which some pattern alone matches",
		Subs: []*Sub{
			usub("mixed", 12000, 300000, mixed, 3, "sets of 2-12 patterns of every kind in three orders, with repeated additions, a random part of the set, and several patterns per identifier; each compared with the patterns alone"),
			usub("onepath", 10000, 250000, one, 3, "the same with everything on one path, so that all automata are merged"),
			usub("large", 160, 4000, large, 2, "sets of 60-300 patterns over several paths"),
			usub("scale", 1500, 40000, scaled(mixed, scaleAll), 2, "as mixed, scaled up: "+scaleText),
			usub("large1", 120, 3000, large1, 2, "sets of 60-300 patterns over one or two paths"),
		}})
	newF := func() any { return &FCase{} }
	fp := mixed
	fp.Pats, fp.Evs = [2]int{1, 8}, [2]int{1, 5}
	deep := fp
	deep.Depth, deep.Paths = 5, [2]int{3, 10}
	deep.ArrayPct = 30
	register(&Prop{ID: "C22", Rule: "non-trivial: an event with a match",
		Subs: []*Sub{
			{Name: "mixed", Quick: 10000, Thorough: 250000, New: newF, Check: checkFlat, Gen: genFlat(fp), Rule: "four flatteners of our own (reporting what the tracker asks for or everything, in document or random order, one of them with arrays and elements numbered arbitrarily) and their copies against the built-in one and the model; the tracker is compared with the paths added, after each addition and refused addition; flattener errors"},
			{Name: "deep", Quick: 6000, Thorough: 150000, New: newF, Check: checkFlat, Gen: genFlat(deep), Rule: "the same with more and deeper paths, which are often prefixes of each other, and arrays"},
			{Name: "scale", Quick: 2000, Thorough: 50000, New: newF, Check: checkFlat, Gen: genFlat(scaled(fp, scaleAll)), Rule: "as mixed, scaled up: " + scaleText},
			{Name: "fields", Quick: 20000, Thorough: 500000, New: func() any { return &FLCase{} }, Check: checkFields, Gen: genFields(mixed, 0), Rule: "a flattener that returns lists of fields that are no JSON object's: any leaves at the paths of the patterns, in any order, some twice or none at all, in elements of a forest of arrays with arbitrary numbers; against the model, through an instance and its copy"},
			{Name: "bytes", Quick: 10000, Thorough: 250000, New: func() any { return &FLCase{} }, Check: checkFields, Gen: genFields(mixed, 70), Rule: "the same with more fields, which are strings of bytes that needn't be UTF-8: they take no match away, and results are repeatable"},
		}})
	register(&Prop{ID: "C24", Rule: "non-trivial: a permitted combination",
		Subs: []*Sub{
			{Name: "options", Quick: 11111, Thorough: 1 << 20, New: func() any { return &OCase{} }, Check: checkOpts, Gen: genOpts, Rule: "enumerated: every sequence of up to 4 (thorough: 5) of ten options; permitted ones are used twice and both instances put through additions, matches, copies, deletions and the deprecated calls"},
			{Name: "media", Quick: 30000, Thorough: 1000000, New: func() any { return &OCase{} }, Check: checkOpts, Gen: genMedia, Rule: "media types a few edits away from application/json (parameters, white space, other letter case, characters removed or added), with up to two other options"},
		}})
}
