package main

// Histories of calls on a tree of instances sharing one pattern set, and the model that judges them.

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	quamina "quamina.net/go/quamina/v2"
)

// HOp is one call.
// add: AddPattern(X, Pats[P]) on instance I      bad: AddPattern(X, T), which has to be refused
// del: DeletePatterns(X)                         ev: match event E, N times
// badev: match T, which has to be refused        copy: append a copy of instance I
// mode: set the build mode (S: speed)            stats: read the statistics
type HOp struct {
	K string `json:"k"`
	I int    `json:"i,omitempty"`
	X string `json:"x,omitempty"`
	P int    `json:"p,omitempty"`
	E int    `json:"e,omitempty"`
	N int    `json:"n,omitempty"`
	T string `json:"t,omitempty"`
	S bool   `json:"s,omitempty"`
}

type HPat struct {
	Text string `json:"text"`
	P    *Pat   `json:"p"`
}

type HCase struct {
	Del   bool   `json:"del,omitempty"`
	Flat  string `json:"flat,omitempty"` // "": built-in; "ref": a custom flattener
	XKind string `json:"xkind,omitempty"`
	Pats  []HPat `json:"pats"`
	Evs   []MEv  `json:"evs"`
	Ops   []HOp  `json:"ops"`
}

func newH() any { return &HCase{} }

type xStruct struct {
	A string
	N int
}

// xval gives the identifier used for a name.
func xval(kind, name string) quamina.X {
	n := int(hash64(name) & 0xffff)
	switch kind {
	case "int":
		return n
	case "struct":
		return xStruct{name, n}
	case "alike":
		if k, err := strconv.Atoi(strings.TrimPrefix(name, "P")); err == nil && strings.HasPrefix(name, "P") {
			return alikeX(k)
		}
	case "mixed":
		switch n % 5 {
		case 0:
			return n
		case 1:
			return xStruct{name, n}
		case 2:
			return [2]string{name, "x"}
		case 3:
			return float64(n) + 0.5
		}
	}
	return name
}

type (
	xInt    int
	xString string
	xOther  struct{ A any }
	xPrints struct{ N, M int }
)

func (x xPrints) String() string { return strconv.Itoa(x.N) }

// alikeX gives identifiers many of which are printed alike, or have equal values in different types.
func alikeX(k int) quamina.X {
	const kinds = 20
	n := k / kinds
	switch k % kinds {
	case 0:
		return n
	case 1:
		return strconv.Itoa(n)
	case 2:
		return int64(n)
	case 3:
		return float64(n)
	case 4:
		return [1]int{n}
	case 5:
		return fmt.Sprintf("[%d]", n)
	case 6:
		if n == 0 {
			return nil
		}
		return uint64(n)
	case 7:
		return "<nil>" + strings.Repeat("!", n)
	case 8:
		return xInt(n)
	case 9:
		return xString(strconv.Itoa(n))
	case 10:
		return xPrints{n, 0}
	case 11:
		return xPrints{n, 1}
	case 12:
		return [2]any{n, strconv.Itoa(n)}
	case 13:
		return [2]any{strconv.Itoa(n), n}
	case 14:
		return xOther{n}
	case 15:
		return struct{ A any }{n}
	case 16:
		return strings.Repeat(" ", n)
	case 17:
		return complex(float64(n), 0)
	case 18:
		if n > 1 {
			return uint16(n)
		}
		return n == 0
	}
	if n > 1 {
		return float32(n)
	}
	return fmt.Sprint(n == 0)
}

type hGroup struct {
	live map[string][]int // identifier -> patterns
}

type hInst struct {
	q     *quamina.Quamina
	speed bool
}

type hKept struct {
	at   int
	xs   []quamina.X
	want []quamina.X
}

// histRun is one execution of a history against the code and the model.
type histRun struct {
	c        *HCase
	g        hGroup
	insts    []hInst
	tri      map[[2]int]Tri
	ixs      []*evIndex
	back     map[any]string
	kept     []hKept
	results  []string // canonical result of each ev operation
	stats    []map[string]float64
	r        *Rec
	skipBad  bool                      // leave out bad and badev operations
	modeOf   func(op int) (s, ok bool) // overrides the build mode of an addition
	noModel  bool
	scribble bool
	rebuilt  int
	seenX    map[string]bool
	buf      []byte
}

const sentinel = `1,"a":"a","b":{"a":1}}]`

func (c *HCase) new() *quamina.Quamina {
	var opts []quamina.Option
	if c.Del {
		opts = append(opts, quamina.WithPatternDeletion(true))
	}
	if c.Flat == "ref" {
		opts = append(opts, quamina.WithFlattener(&refFlattener{}))
	}
	return mustNew(opts...)
}

func newHistRun(c *HCase, r *Rec) *histRun {
	h := &histRun{c: c, r: r, tri: map[[2]int]Tri{}, back: map[any]string{}, seenX: map[string]bool{}}
	h.g.live = map[string][]int{}
	h.insts = append(h.insts, hInst{q: c.new()})
	for i := range c.Evs {
		h.ixs = append(h.ixs, indexEvent(c.Evs[i].V))
	}
	return h
}

func (h *histRun) x(name string) quamina.X {
	x := xval(h.c.XKind, name)
	if old, ok := h.back[x]; ok && old != name {
		panic(infra{"identifiers collide"})
	}
	h.back[x] = name
	return x
}

func (h *histRun) verdict(p, e int) Tri {
	k := [2]int{p, e}
	t, ok := h.tri[k]
	if !ok {
		t = patMatches(h.c.Pats[p].P, h.ixs[e])
		h.tri[k] = t
	}
	return t
}

func (h *histRun) names(xs []quamina.X) (map[string]bool, error) {
	m := map[string]bool{}
	for _, x := range xs {
		n, ok := h.back[x]
		if !ok {
			return nil, fmt.Errorf("identifier %v (%T) was never added", x, x)
		}
		if m[n] {
			return nil, fmt.Errorf("identifier %s reported twice", n)
		}
		m[n] = true
	}
	return m, nil
}

// match runs one event through an instance and compares with the model.
func (h *histRun) match(i, e int, keep bool) (string, error) {
	// one buffer for all events, with something behind the event that must not be touched
	text := h.c.Evs[e].Text
	h.buf = append(append(h.buf[:0], text...), sentinel...)
	ev := h.buf[:len(text)]
	xs, err := h.insts[i].q.MatchesForEvent(ev)
	if err != nil {
		return "", fmt.Errorf("event %s: unexpected error %v", clip(h.c.Evs[e].Text, 400), err)
	}
	if string(ev) != text {
		return "", fmt.Errorf("event %s was changed to %s", clip(h.c.Evs[e].Text, 400), clip(string(ev), 400))
	}
	if string(h.buf[len(text):]) != sentinel {
		return "", fmt.Errorf("event %s: bytes behind it were changed", clip(h.c.Evs[e].Text, 400))
	}
	for k := range ev {
		ev[k] = '\xff'
	}
	got, err := h.names(xs)
	if err != nil {
		return "", fmt.Errorf("event %s: %v", clip(h.c.Evs[e].Text, 400), err)
	}
	if h.scribble && len(h.kept)%3 == 2 {
		// the slice returned is the caller's, to do with as it likes
		for k := range xs {
			xs[k] = "scribble"
		}
		xs = append(xs, "scribble")
	}
	if keep {
		h.kept = append(h.kept, hKept{len(h.results), xs, append([]quamina.X(nil), xs...)})
	}
	if !h.noModel {
		want := map[string]Tri{}
		for x, ps := range h.g.live {
			for _, p := range ps {
				want[x] = triMax(want[x], h.verdict(p, e))
			}
		}
		missing, extra := compare(got, want)
		if len(missing)+len(extra) > 0 {
			return "", fmt.Errorf("event %s: got %s; missing:%s; must not match:%s", clip(h.c.Evs[e].Text, 600), xnames(got), h.describe(missing), h.describe(extra))
		}
		for _, t := range want {
			if t == Yes && h.r != nil {
				h.r.Label("event with a match")
				h.r.NonTrivial()
				break
			}
		}
	}
	return xnames(got), nil
}

func (h *histRun) describe(xs []string) string {
	var b bytes.Buffer
	for _, x := range xs {
		fmt.Fprintf(&b, " %s=", x)
		if len(h.g.live[x]) == 0 {
			b.WriteString("(not live)")
		}
		for _, p := range h.g.live[x] {
			fmt.Fprintf(&b, "%s;", clip(h.c.Pats[p].Text, 300))
		}
	}
	return b.String()
}

func (h *histRun) bytes() float64 { return h.insts[0].q.GetMatcherStats()["bytes"] }

func (h *histRun) step(oi int, op *HOp) error {
	if op.I >= len(h.insts) || op.P >= max(1, len(h.c.Pats)) || op.E >= max(1, len(h.c.Evs)) {
		return nil
	}
	in := &h.insts[op.I]
	lab := func(s string) {
		if h.r != nil {
			h.r.Label(s)
		}
	}
	switch op.K {
	case "add":
		if h.modeOf != nil {
			if s, ok := h.modeOf(oi); ok {
				if err := setSpeed(in.q, s); err != nil {
					return err
				}
				in.speed = s
			}
		}
		if err := in.q.AddPattern(h.x(op.X), h.c.Pats[op.P].Text); err != nil {
			return fmt.Errorf("AddPattern(%s): unexpected error %v", clip(h.c.Pats[op.P].Text, 400), err)
		}
		if h.seenX[op.X] && len(h.g.live[op.X]) == 0 {
			lab("identifier added again after deletion")
		}
		h.seenX[op.X] = true
		h.g.live[op.X] = append(h.g.live[op.X], op.P)
	case "bad":
		if h.skipBad {
			return nil
		}
		lab("refused addition")
		before := in.q.GetMatcherStats()
		if err := in.q.AddPattern(h.x(op.X), op.T); err == nil {
			return fmt.Errorf("AddPattern(%s): an error was expected", clip(op.T, 400))
		}
		if after := in.q.GetMatcherStats(); !reflect.DeepEqual(before, after) {
			return fmt.Errorf("AddPattern(%s) failed, but the statistics went from %v to %v", clip(op.T, 400), before, after)
		}
	case "del":
		err := in.q.DeletePatterns(h.x(op.X))
		if !h.c.Del {
			if err == nil {
				return fmt.Errorf("DeletePatterns returned no error though deletion was not asked for")
			}
			lab("refused deletion")
			return nil
		}
		if err != nil {
			return fmt.Errorf("DeletePatterns: unexpected error %v", err)
		}
		lab("deletion")
		delete(h.g.live, op.X)
	case "ev":
		n := op.N
		if n < 1 {
			n = 1
		}
		res := ""
		before := 0.0
		if h.c.Del {
			before = h.bytes()
		}
		for k := 0; k < n; k++ {
			s, err := h.match(op.I, op.E, k == 0)
			if err != nil {
				if n > 1 {
					err = fmt.Errorf("repetition %d: %v", k, err)
				}
				return err
			}
			res = s
		}
		if h.c.Del && h.bytes() < before {
			h.rebuilt++
			lab("rebuild seen during a match")
		}
		h.results = append(h.results, res)
	case "badev":
		if h.skipBad {
			return nil
		}
		if _, err := in.q.MatchesForEvent([]byte(op.T)); err == nil {
			return fmt.Errorf("event %q: an error was expected", clip(op.T, 400))
		}
		lab("refused event")
	case "junk":
		if h.skipBad {
			return nil
		}
		if _, err := in.q.MatchesForEvent([]byte(op.T)); err != nil {
			lab("refused event")
		}
	case "copy":
		if len(h.insts) < 8 {
			cp := in.q.Copy()
			if got := cp.GetMatcherBuildMode(); (got == quamina.BuiltForSpeed) != in.speed {
				return fmt.Errorf("a copy has build mode %d, its original has speed=%v", got, in.speed)
			}
			h.insts = append(h.insts, hInst{cp, in.speed})
			lab("copy")
		}
	case "mode":
		if err := setSpeed(in.q, op.S); err != nil {
			return err
		}
		in.speed = op.S
	case "stats":
		h.stats = append(h.stats, in.q.GetMatcherStats())
	default:
		panic(infra{"unknown operation " + op.K})
	}
	for i := range h.insts {
		if (h.insts[i].q.GetMatcherBuildMode() == quamina.BuiltForSpeed) != h.insts[i].speed {
			return fmt.Errorf("instance %d has build mode %d, but the last one set has speed=%v", i, h.insts[i].q.GetMatcherBuildMode(), h.insts[i].speed)
		}
	}
	return nil
}

// run executes all operations, then tries every event on every instance and looks at the results kept.
func (h *histRun) run() error {
	for i := range h.c.Ops {
		if err := h.step(i, &h.c.Ops[i]); err != nil {
			op := h.c.Ops[i]
			return fmt.Errorf("operation %d (%s on instance %d): %v", i, op.K, op.I, err)
		}
	}
	return h.finish()
}

func (h *histRun) finish() error {
	for e := range h.c.Evs {
		for i := range h.insts {
			s, err := h.match(i, e, true)
			if err != nil {
				return fmt.Errorf("at the end, instance %d: %v", i, err)
			}
			h.results = append(h.results, s)
		}
	}
	for _, k := range h.kept {
		if !reflect.DeepEqual(k.xs, k.want) && len(k.xs)+len(k.want) > 0 {
			return fmt.Errorf("result %d was %v when returned and is %v now", k.at, k.want, k.xs)
		}
	}
	return nil
}

func sortedXs(m map[string][]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- generation ----

type histGen struct {
	prof              Profile
	ops               [2]int
	del               int // percent of cases with deletion
	add, delw, ev     int // weights
	bad, badev        int
	copyw, mode, stat int
	xs                [2]int // number of identifiers
	repeat            int    // percent of matches that are repeated many times
	flat              int    // percent of cases with a custom flattener
	pre               int    // additions before anything else
	xkinds            bool
	bulk              int // up to so many additions at the start, and deletions of many identifiers
}

var badTails = []string{`[{"nonesuch":1}]`, `[{"exists":"yes"}]`, `[{"exists":true},"a"]`, `["a",{"exists":false}]`, `[{"anything-but":[]}]`, `[{"anything-but":["a",1]}]`, `[{"wildcard":"a**"}]`, `[{"wildcard":"a\\"}]`, `[{"wildcard":"\\a"}]`,
	`[{"shellstyle":"a**b"}]`, `[{"regexp":"(a"}]`, `[{"regexp":"a{3,1}"}]`, `[{"regexp":"[z-a]"}]`, `[{"regexp":"~p{Zz}"}]`, `[{"prefix":1}]`, `["a"`, `"a"`, `1`, `true`, `null`, `{"q":1}`, `{"q":["a"`, `[01]`, `["\x"]`, `["a",]`, `[{}]`, `[["a"]]`, `[{"prefix":"a","b":1}]`,
	`[{"equals-ignore-case":7}]`, `["a","b",{"wildcard":true}]`, `[`, `{`, ``, `[{"regexp":"a|b"},{"regexp":"?"}]`, "[\"\x00\"]", "[\"\xff\"]"}

// badPattern breaks a pattern, usually late in its text.
func (v *Vocab) badPattern(g *G) string {
	for tries := 0; tries < 6; tries++ {
		s := g.patText(v.pattern(g), style{}, true)
		switch g.W(6, 2, 2, 2) {
		case 0:
			s = s[:len(s)-1] + `,` + g.jstr(pick(g, v.names)+"zz", style{}) + `:` + pick(g, badTails) + `}`
		case 1:
			s = `{` + g.jstr(pick(g, v.names)+"zz", style{}) + `:` + pick(g, badTails) + `,` + s[1:]
		case 2:
			s = s[:g.N(len(s))]
		case 3:
			s = mutateText(g, s, patTokens)
		}
		if j := judgePattern([]byte(s)); j.t == No && !j.trailing && j.cost < rxCostLimit {
			return s
		}
	}
	return `{"a":["b"],"c":[{"nonesuch":1}]}`
}

var badEvents = []string{``, ` `, `[]`, `1`, `"a"`, `null`, `{`, `x`, `[{"a":1}]`, "\xff"}

var evTokens = []string{"{", "}", "[", "]", ":", ",", `"`, `\`, "1", "-", "tru", "null", "\x00", "\xff", `"a"`, `\u00`, `\ud800`, "[[[", `{"a":{"a":`, " "}

// badEvent is refused whatever the patterns are.
func badEvent(g *G) string { return pick(g, badEvents) }

func (hg *histGen) gen(g *G) *HCase {
	p := hg.prof
	v := genVocab(g, &p)
	c := &HCase{Del: g.P(hg.del, 100)}
	if hg.flat > 0 && g.P(hg.flat, 100) {
		c.Flat = "ref"
	}
	if hg.xkinds {
		c.XKind = pick(g, []string{"", "int", "struct", "mixed", "alike", "alike"})
	}
	var pats []*Pat
	np := g.R(p.Pats[0], p.Pats[1])
	nd := 0
	for i := 0; i < np; i++ {
		pat := v.pattern(g)
		for _, f := range pat.F {
			for j := range f.Alts {
				nd += isNondet(&f.Alts[j])
			}
		}
		pats = append(pats, pat)
	}
	var evs []*Val
	for i, n := 0, g.R(p.Evs[0], p.Evs[1]); i < n; i++ {
		evs = append(evs, v.event(g, pats))
	}
	if p.Scale != (scaleW{}) {
		pats = scaleUp(g, p.Scale, pats, evs, v)
		nd = patsNondet(pats)
	}
	for _, pat := range pats {
		c.Pats = append(c.Pats, HPat{Text: g.patText(pat, genStyle(g), true), P: pat})
	}
	for _, e := range evs {
		c.Evs = append(c.Evs, MEv{Text: g.eventText(e, genStyle(g)), V: e})
	}
	nx := g.R(hg.xs[0], hg.xs[1])
	most := 40
	work := 0 // of adding patterns
	if hg.bulk > 0 {
		// every pattern once, under identifiers of their own or few, in any order
		if g.P(3, 4) {
			nx = scaleSize(g, hg.bulk)
		}
		k := 0
		order := g.perm(len(c.Pats))
		for len(c.Ops) < max(nx, len(c.Pats)) && len(c.Ops) < hg.bulk && k < 3*hg.bulk {
			i := order[k%len(c.Pats)]
			if w := patWeight(pats[i]); work+w < 4000 {
				work += w
				c.Ops = append(c.Ops, HOp{K: "add", X: fmt.Sprintf("P%d", k%nx), P: i})
			}
			k++
		}
		most = 100
	}
	nops := g.R(hg.ops[0], hg.ops[1])
	insts := 1
	speedOK := nd <= 3
	adds := 0
	for i := 0; i < nops; i++ {
		op := HOp{I: g.N(insts)}
		k := 0
		if i >= hg.pre {
			k = g.W(hg.add, hg.ev, hg.delw, hg.bad, hg.badev, hg.copyw, hg.mode, hg.stat)
		}
		if k == 0 && adds > most {
			k = 1
		}
		if hg.bulk > 0 && k == 2 && g.P(1, 2) {
			// a range of identifiers
			from := g.N(nx)
			to := min(nx, from+scaleSize(g, 600))
			keep := g.N(4)
			for x := from; x < to; x++ {
				if keep == 0 || !g.P(keep, 40) {
					c.Ops = append(c.Ops, HOp{K: "del", I: op.I, X: fmt.Sprintf("P%d", x)})
				}
			}
			continue
		}
		switch k {
		case 0:
			adds++
			op.K, op.X, op.P = "add", fmt.Sprintf("P%d", g.N(nx)), g.N(len(c.Pats))
			if hg.bulk > 0 {
				if work += patWeight(pats[op.P]); work > 5000 {
					op = HOp{K: "ev", I: op.I, E: g.N(len(c.Evs))}
				}
			}
		case 1:
			op.K, op.E = "ev", g.N(len(c.Evs))
			if g.P(hg.repeat, 100) {
				op.N = g.R(2, 400)
				if hg.bulk > 0 {
					op.N = min(op.N, 2+100000/(100+len(c.Evs[op.E].Text)))
				}
			}
		case 2:
			op.K, op.X = "del", fmt.Sprintf("P%d", g.N(nx+1))
		case 3:
			op.K, op.X, op.T = "bad", fmt.Sprintf("P%d", g.N(nx+2)), v.badPattern(g)
		case 4:
			op.K, op.T = "badev", badEvent(g)
			if t := c.Evs[g.N(len(c.Evs))].Text; g.P(3, 4) {
				op.K, op.T = "junk", t[:g.N(len(t)+1)]
				if g.B() {
					op.T = mutateText(g, t, evTokens)
				}
			}
		case 5:
			op.K = "copy"
			if insts < 8 {
				insts++
			}
		case 6:
			op.K, op.S = "mode", g.B() && speedOK
		case 7:
			op.K = "stats"
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}
