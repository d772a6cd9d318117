package main

// C01 - C08: the match relation. One case type and one checker; the properties differ in what is generated.

import (
	"fmt"
	"os"
	"sort"
	"strings"

	quamina "quamina.net/go/quamina/v2"
)

type MPat struct {
	X     string `json:"x"`
	Text  string `json:"text"`
	P     *Pat   `json:"p"`
	Speed bool   `json:"speed,omitempty"`
}

type MEv struct {
	Text string `json:"text"`
	V    *Val   `json:"v"`
}

type MCase struct {
	Pats []MPat `json:"pats"`
	Evs  []MEv  `json:"evs"`
	// XKind: see xval
	XKind string `json:"xkind,omitempty"`
	// Probe[i] >= 0: match that event after adding pattern i
	Probe []int `json:"probe,omitempty"`
}

func mustNew(opts ...quamina.Option) *quamina.Quamina {
	q, err := quamina.New(opts...)
	if err != nil {
		panic(fmt.Sprintf("quamina.New failed: %v", err))
	}
	return q
}

func xset(xs []quamina.X) (map[string]bool, error) {
	m := map[string]bool{}
	for _, x := range xs {
		s, ok := x.(string)
		if !ok {
			return nil, fmt.Errorf("identifier %v (%T) was never added", x, x)
		}
		if m[s] {
			return nil, fmt.Errorf("identifier %q reported twice", s)
		}
		m[s] = true
	}
	return m, nil
}

func xnames(m map[string]bool) string { return "[" + strings.Join(sortedKeys(m), " ") + "]" }

func kindOf(p *Pat) []string {
	seen := map[string]bool{}
	for i := range p.F {
		if len(p.F[i].Alts) == 0 {
			seen["empty-list"] = true
		}
		for _, a := range p.F[i].Alts {
			t := a.T
			if t == "exists" {
				t = fmt.Sprintf("exists:%v", a.B)
			}
			seen[t] = true
		}
	}
	return sortedKeys(seen)
}

// expect gives the model's verdict for each identifier.
func expect(pats []MPat, ix *evIndex) map[string]Tri {
	out := map[string]Tri{}
	for i := range pats {
		x := pats[i].X
		if out[x] == Yes {
			continue
		}
		out[x] = triMax(out[x], patMatches(pats[i].P, ix))
	}
	return out
}

func compare(got map[string]bool, want map[string]Tri) (missing, extra []string) {
	for _, x := range sortedKeys(want) {
		if want[x] == Yes && !got[x] {
			missing = append(missing, x)
		}
		if want[x] == No && got[x] {
			extra = append(extra, x)
		}
	}
	for _, x := range sortedKeys(got) {
		if _, ok := want[x]; !ok {
			extra = append(extra, x+"(unknown)")
		}
	}
	return
}

func patsOf(pats []MPat, xs []string) string {
	var b strings.Builder
	for _, x := range xs {
		for _, p := range pats {
			if p.X == x {
				fmt.Fprintf(&b, " %s=%s", x, clip(p.Text, 300))
			}
		}
	}
	return b.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func checkEvent(q *quamina.Quamina, pats []MPat, ev *MEv, ix *evIndex, back map[any]string, r *Rec) error {
	xs, err := q.MatchesForEvent([]byte(ev.Text))
	if err != nil {
		return fmt.Errorf("event %s: unexpected error %v", clip(ev.Text, 500), err)
	}
	if back != nil {
		for i, x := range xs {
			name, ok := back[x]
			if !ok {
				return fmt.Errorf("event %s: identifier %v (%T) was never added", clip(ev.Text, 500), x, x)
			}
			xs[i] = name
		}
	}
	got, err := xset(xs)
	if err != nil {
		return fmt.Errorf("event %s: %v", clip(ev.Text, 500), err)
	}
	want := expect(pats, ix)
	missing, extra := compare(got, want)
	if len(missing)+len(extra) > 0 {
		return fmt.Errorf("event %s: got %s; missing:%s; must not match:%s", clip(ev.Text, 800), xnames(got), patsOf(pats, missing), patsOf(pats, extra))
	}
	if r != nil {
		yes, no := 0, 0
		for _, t := range want {
			switch t {
			case Yes:
				yes++
			case No:
				no++
			default:
				r.Label("undecided verdict")
			}
		}
		r.LabelIf(yes > 0, "event with a match")
		r.LabelIf(no > 0, "event with a non-match")
		r.NonTrivialIf(yes > 0)
	}
	return nil
}

func setSpeed(q *quamina.Quamina, speed bool) error {
	m := quamina.BuiltForComfort
	if speed {
		m = quamina.BuiltForSpeed
	}
	return q.SetMatcherBuildMode(m)
}

func checkM(c any, r *Rec) error {
	m := c.(*MCase)
	ixs := make([]*evIndex, len(m.Evs))
	for i := range m.Evs {
		ixs[i] = indexEvent(m.Evs[i].V)
		for _, v := range ixs[i].all {
			if len(v.Trail) > 0 {
				r.Label("event with an array")
				break
			}
		}
	}
	q := mustNew()
	var back map[any]string
	if m.XKind != "" {
		back = map[any]string{}
		for _, p := range m.Pats {
			back[xval(m.XKind, p.X)] = p.X
		}
	}
	for i, p := range m.Pats {
		if err := setSpeed(q, p.Speed); err != nil {
			return err
		}
		for _, k := range kindOf(p.P) {
			r.Label("pattern: " + k)
		}
		if err := q.AddPattern(xval(m.XKind, p.X), p.Text); err != nil {
			return fmt.Errorf("AddPattern(%s): unexpected error %v", clip(p.Text, 500), err)
		}
		if i < len(m.Probe) && m.Probe[i] >= 0 && m.Probe[i] < len(m.Evs) {
			j := m.Probe[i]
			if err := checkEvent(q, m.Pats[:i+1], &m.Evs[j], ixs[j], back, nil); err != nil {
				return fmt.Errorf("after %d of %d patterns: %v", i+1, len(m.Pats), err)
			}
		}
	}
	for i := range m.Evs {
		if err := checkEvent(q, m.Pats, &m.Evs[i], ixs[i], back, r); err != nil {
			return err
		}
	}
	return nil
}

func isNondet(a *Alt) int {
	switch a.T {
	case "wildcard", "shellstyle":
		return strings.Count(a.S, "*")
	case "regexp":
		return 1 + a.RX.size()/4
	}
	return 0
}

// genM makes a case from a profile.
func genM(g *G, p *Profile) *MCase {
	v := genVocab(g, p)
	c := &MCase{}
	np := g.R(p.Pats[0], p.Pats[1])
	speed := g.P(1, 6)
	nd := 0
	var sts []style
	for i := 0; i < np; i++ {
		pat := v.pattern(g)
		x := fmt.Sprintf("P%d", i)
		if i > 0 && p.DupX && g.P(1, 10) {
			x = fmt.Sprintf("P%d", g.N(i))
		}
		st := genStyle(g)
		for _, f := range pat.F {
			for j := range f.Alts {
				nd += isNondet(&f.Alts[j])
			}
		}
		c.Pats = append(c.Pats, MPat{X: x, P: pat, Speed: speed && nd <= 3 && g.P(2, 3)})
		sts = append(sts, st)
	}
	var pats []*Pat
	for i := range c.Pats {
		pats = append(pats, c.Pats[i].P)
	}
	ne := g.R(p.Evs[0], p.Evs[1])
	var evs []*Val
	for i := 0; i < ne; i++ {
		evs = append(evs, v.event(g, pats))
	}
	if p.Scale != (scaleW{}) {
		pats = scaleUp(g, p.Scale, pats, evs, v)
		for i := np; i < len(pats); i++ {
			c.Pats = append(c.Pats, MPat{X: fmt.Sprintf("M%d", i), P: pats[i]})
			sts = append(sts, style{})
		}
		if patsNondet(pats) > 3 {
			for i := range c.Pats {
				c.Pats[i].Speed = false
			}
		}
	}
	for i := range c.Pats {
		c.Pats[i].Text = g.patText(c.Pats[i].P, sts[i], true)
	}
	if len(c.Pats) > np && g.B() {
		c.Pats = shuffled(g, c.Pats)
	}
	for _, e := range evs {
		c.Evs = append(c.Evs, MEv{Text: g.eventText(e, genStyle(g)), V: e})
	}
	if p.DupX && g.P(1, 6) {
		c.XKind = "alike"
	}
	if g.P(1, 3) {
		for range c.Pats {
			if g.P(1, 3) {
				c.Probe = append(c.Probe, g.N(ne))
			} else {
				c.Probe = append(c.Probe, -1)
			}
		}
	}
	return c
}

func newM() any { return &MCase{} }

func mSub(name string, quick, thorough int, p Profile, rule string) *Sub {
	pp := p
	return &Sub{Name: name, Quick: quick, Thorough: thorough, New: newM, Check: checkM, Rule: rule,
		Gen: func(g *G, idx int) any { return genM(g, &pp) }}
}

func kindW(pairs ...int) (out [nKinds]int) {
	for i := 0; i+1 < len(pairs); i += 2 {
		out[pairs[i]] = pairs[i+1]
	}
	return
}

var lightRX = rxGen{depth: 2, maxSize: 12, counts: 3}

// fmtEv builds the one-member event {"a": string}.
func strEv(g *G, s string) MEv {
	v := &Val{K: "o", M: []Member{{"a", vStr(s)}}}
	return MEv{Text: g.eventText(v, style{}), V: v}
}

func onePat(g *G, x string, alts ...Alt) MPat {
	p := &Pat{F: []PField{{Path: []string{"a"}, Alts: alts}}}
	return MPat{X: x, Text: g.patText(p, style{}, false), P: p}
}

// allStrings lists the strings over alpha up to length n.
func allStrings(alpha []rune, n int) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, r := range alpha {
				next = append(next, s+string(r))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// SCase: patterns on member "a" against every string over an alphabet up to a length, kept small in replays.
type SCase struct {
	Pats  []MPat   `json:"pats"`
	Alpha string   `json:"alpha"`
	Len   int      `json:"len"`
	Extra []string `json:"extra,omitempty"`
}

func checkS(c any, r *Rec) error {
	m := c.(*SCase)
	q := mustNew()
	for _, p := range m.Pats {
		for _, k := range kindOf(p.P) {
			r.Label("pattern: " + k)
		}
		if err := setSpeed(q, p.Speed); err != nil {
			return err
		}
		if err := q.AddPattern(p.X, p.Text); err != nil {
			return fmt.Errorf("AddPattern(%s): unexpected error %v", clip(p.Text, 500), err)
		}
	}
	strs := append(allStrings([]rune(m.Alpha), m.Len), m.Extra...)
	g := replayG(nil)
	for _, s := range strs {
		ev := strEv(g, s)
		r.Label("string values tried")
		if err := checkEvent(q, m.Pats, &ev, indexEvent(ev.V), nil, r); err != nil {
			return err
		}
	}
	return nil
}

func newS() any { return &SCase{} }

func scaled(p Profile, w scaleW) Profile {
	p.Scale = w
	return p
}

// ways to scale up cases about single values
var scaleOne = scaleW{1, 0, 0, 0, 2, 0, 6, 5}

const scaleText = "one or two of long arrays with the elements that matter far apart, deep nesting, patterns with many fields, many patterns, many or deeply nested unused members, long strings, many values; sizes mostly around powers of two up to about 1000"

func init() {
	all := kindW(kS, 30, kN, 14, kLit, 8, kPrefix, 8, kExT, 6, kExF, 6, kAB, 8, kWild, 6, kShell, 5, kEIC, 5, kRX, 4)
	single := func(k [nKinds]int) Profile {
		return Profile{Kinds: k, Paths: [2]int{1, 2}, Pats: [2]int{4, 24}, Evs: [2]int{10, 24}, Fields: [2]int{1, 1}, Alts: [2]int{1, 3}, Depth: 1, ArrayPct: 5, MixPct: 50, StrMax: 10, RX: lightRX, DupX: true}
	}
	register(&Prop{ID: "C01", Rule: "non-trivial: at least one event for which the model requires a match",
		Subs: []*Sub{
			mSub("mixed", 26000, 600000, Profile{Kinds: all, Paths: [2]int{1, 6}, Pats: [2]int{1, 10}, Evs: [2]int{4, 12}, Fields: [2]int{1, 4}, Alts: [2]int{1, 4}, Depth: 4, ArrayPct: 8, MixPct: 25, StrMax: 8, EmptyPct: 12, RX: lightRX, WildNames: true, DupX: true},
				"random pattern sets of every kind over shared paths, events aimed at or near a pattern; results compared with the reference matcher"),
			mSub("wide", 2500, 60000, Profile{Kinds: all, Paths: [2]int{6, 14}, Pats: [2]int{10, 60}, Evs: [2]int{6, 16}, Fields: [2]int{1, 7}, Alts: [2]int{1, 5}, Depth: 5, ArrayPct: 4, MixPct: 20, StrMax: 8, EmptyPct: 8, RX: lightRX, WildNames: true, DupX: true},
				"as mixed, with many patterns of many paths"),
			mSub("types", 8000, 200000, Profile{Kinds: kindW(kS, 20, kN, 20, kLit, 20, kPrefix, 4, kWild, 2), Paths: [2]int{1, 3}, Pats: [2]int{1, 12}, Evs: [2]int{6, 14}, Fields: [2]int{1, 2}, Alts: [2]int{1, 5}, Depth: 2, ArrayPct: 8, MixPct: 40, StrMax: 5, EmptyPct: 20, DupX: true},
				"strings that look like numbers and literals against the real ones"),
			mSub("scale", 4000, 100000, scaled(Profile{Kinds: all, Paths: [2]int{1, 5}, Pats: [2]int{1, 8}, Evs: [2]int{3, 8}, Fields: [2]int{1, 4}, Alts: [2]int{1, 4}, Depth: 4, ArrayPct: 8, MixPct: 25, StrMax: 6, EmptyPct: 12, RX: lightRX, WildNames: true}, scaleAll),
				"cases as in mixed, scaled up: "+scaleText),
		}})
	register(&Prop{ID: "C02", Rule: "non-trivial: at least one event for which the model requires a match",
		Subs: []*Sub{
			mSub("arrays", 26000, 600000, Profile{Kinds: kindW(kS, 40, kN, 8, kLit, 10, kExT, 5, kExF, 2, kPrefix, 3, kAB, 2, kWild, 2), Paths: [2]int{2, 6}, Pats: [2]int{1, 6}, Evs: [2]int{5, 12}, Fields: [2]int{2, 4}, Alts: [2]int{1, 2}, Depth: 4, ArrayPct: 45, MixPct: 30, StrMax: 1, RX: lightRX},
				"multi-path patterns over events full of nested arrays, witnesses placed in one element or deliberately spread over several"),
			mSub("deep", 6000, 150000, Profile{Kinds: kindW(kS, 40, kLit, 10, kExT, 4), Paths: [2]int{3, 8}, Pats: [2]int{1, 10}, Evs: [2]int{4, 10}, Fields: [2]int{2, 6}, Alts: [2]int{1, 2}, Depth: 5, ArrayPct: 30, MixPct: 45, StrMax: 1},
				"more paths and depth, arrays mixing leaves and objects"),
			mSub("scale", 6000, 150000, scaled(Profile{Kinds: kindW(kS, 40, kLit, 10, kExT, 4, kExF, 1), Paths: [2]int{2, 6}, Pats: [2]int{1, 5}, Evs: [2]int{3, 8}, Fields: [2]int{2, 4}, Alts: [2]int{1, 2}, Depth: 4, ArrayPct: 35, MixPct: 25, StrMax: 1}, scaleW{20, 3, 2, 4, 2, 1, 0, 1}),
				"cases as in arrays, scaled up: "+scaleText),
		}})
	register(&Prop{ID: "C03", Rule: "non-trivial: at least one event for which the model requires a match",
		Subs: []*Sub{
			mSub("exists", 26000, 600000, Profile{Kinds: kindW(kS, 10, kN, 3, kLit, 3, kPrefix, 2, kExT, 20, kExF, 20, kAB, 2, kWild, 2), Paths: [2]int{1, 6}, Pats: [2]int{1, 8}, Evs: [2]int{5, 12}, Fields: [2]int{1, 4}, Alts: [2]int{1, 2}, Depth: 3, ArrayPct: 14, MixPct: 25, StrMax: 2, WildNames: true, DupX: true},
				"patterns full of exists conditions, mixed with values; events with empty arrays and objects, missing members, no mentioned member"),
			{Name: "orders", Quick: 6000, Thorough: 120000, New: newM, Check: checkM, Gen: genExistsOrders, Rule: "2-4 sibling paths, each exists:true / exists:false / a value / absent, against every presence pattern of the siblings"},
			mSub("scale", 6000, 150000, scaled(Profile{Kinds: kindW(kS, 10, kN, 3, kLit, 3, kPrefix, 2, kExT, 20, kExF, 20, kAB, 2, kWild, 2), Paths: [2]int{1, 6}, Pats: [2]int{1, 8}, Evs: [2]int{4, 8}, Fields: [2]int{1, 4}, Alts: [2]int{1, 2}, Depth: 3, ArrayPct: 12, MixPct: 25, StrMax: 2, WildNames: true}, scaleW{4, 1, 2, 6, 8, 3, 0, 1}),
				"cases as in exists, scaled up: "+scaleText),
		}})
	register(&Prop{ID: "C04", Rule: "non-trivial: at least one event for which the model requires a match",
		Subs: []*Sub{
			{Name: "values", Quick: 26000, Thorough: 800000, New: newM, Check: checkM, Gen: genNumCase, Rule: "numbers over the whole float64 range in all legal spellings, against the same value respelt and its neighbours in float64 order"},
			mSub("crowd", 8000, 200000, single(kindW(kS, 10, kN, 30, kLit, 4, kPrefix, 3, kAB, 2, kWild, 3, kShell, 2, kEIC, 2, kRX, 1)), "numbers sharing a path with patterns of every kind"),
			mSub("scale", 2000, 50000, scaled(single(kindW(kS, 10, kN, 30, kLit, 4, kPrefix, 3, kAB, 2, kWild, 3, kShell, 2, kEIC, 2, kRX, 1)), scaleOne), "as crowd, scaled up: "+scaleText),
		}})
	register(&Prop{ID: "C05", Rule: "non-trivial: at least one event for which the model requires a match",
		Subs: []*Sub{
			mSub("crowd", 20000, 500000, single(kindW(kS, 24, kPrefix, 16, kAB, 14, kN, 2, kLit, 1, kWild, 3, kShell, 2, kEIC, 2, kRX, 1)), "strings, prefixes and anything-but sharing one or two paths, over adversarial alphabets"),
			mSub("scale", 2000, 50000, scaled(single(kindW(kS, 24, kPrefix, 16, kAB, 14, kN, 2, kLit, 1, kWild, 3, kShell, 2, kEIC, 2, kRX, 1)), scaleOne), "as crowd, scaled up: "+scaleText),
			mSub("pairs", 26000, 600000, Profile{Kinds: kindW(kS, 10, kPrefix, 8, kAB, 10), Paths: [2]int{1, 1}, Pats: [2]int{1, 3}, Evs: [2]int{8, 14}, Fields: [2]int{1, 1}, Alts: [2]int{1, 4}, Depth: 1, ArrayPct: 3, MixPct: 0, StrMax: 12}, "few patterns, values which differ from the pattern's in one character"),
			{Name: "small", Quick: 3000, Thorough: 40000, New: newS, Check: checkS, Gen: genStrSmall, Rule: "1-5 strings, prefixes and anything-but over a 2-3 letter alphabet (including quote and backslash) against every string up to length 4"},
			{Name: "long", Quick: 600, Thorough: 12000, New: newM, Check: checkM, Gen: genLongStr, Rule: "long values differing late"},
		}})
	register(&Prop{ID: "C06", Rule: "non-trivial: at least one event for which the model requires a match",
		Subs: []*Sub{
			mSub("crowd", 12000, 300000, single(kindW(kWild, 24, kShell, 16, kS, 8, kPrefix, 4, kAB, 3, kN, 1, kEIC, 2, kRX, 1)), "many globs and other kinds sharing a path, random order of addition"),
			mSub("scale", 2000, 50000, scaled(single(kindW(kWild, 24, kShell, 16, kS, 8, kPrefix, 4, kAB, 3, kN, 1, kEIC, 2, kRX, 1)), scaleOne), "as crowd, scaled up: "+scaleText),
			mSub("pairs", 20000, 500000, Profile{Kinds: kindW(kWild, 10, kShell, 10, kS, 3), Paths: [2]int{1, 1}, Pats: [2]int{1, 3}, Evs: [2]int{8, 14}, Fields: [2]int{1, 1}, Alts: [2]int{1, 3}, Depth: 1, ArrayPct: 3, MixPct: 0, StrMax: 10}, "few globs, witnesses and near misses"),
			{Name: "small", Quick: 4000, Thorough: 60000, New: newS, Check: checkS, Gen: genGlobSmall, Rule: "1-6 globs, strings and prefixes over a 2-3 letter alphabet against every string up to length 4-5"},
		}})
	register(&Prop{ID: "C07", Rule: "non-trivial: at least one event for which the model requires a match",
		Subs: []*Sub{
			{Name: "codepoints", Quick: 1 << 20, Thorough: 1 << 20, New: newS, Check: checkS, Gen: genCodepoints, Rule: "every character with a case variant, in blocks of 16: each as an equals-ignore-case pattern against itself, all its variants, its neighbours and the rest of the block (enumerated completely)"},
			{Name: "words", Quick: 16000, Thorough: 400000, New: newM, Check: checkM, Gen: genEicWords, Rule: "words over cased characters of one or several scripts, re-cased or perturbed"},
			mSub("crowd", 8000, 200000, single(kindW(kEIC, 24, kS, 8, kPrefix, 4, kAB, 3, kWild, 4, kShell, 2, kN, 1, kRX, 1)), "equals-ignore-case among patterns of other kinds on one path"),
			mSub("scale", 2000, 50000, scaled(single(kindW(kEIC, 24, kS, 8, kPrefix, 4, kAB, 3, kWild, 4, kShell, 2, kN, 1, kRX, 1)), scaleOne), "as crowd, scaled up: "+scaleText),
		}})
	big := rxGen{depth: 3, maxSize: 40, counts: 4, neg: true}
	wide := rxGen{depth: 4, maxSize: 60, counts: 9}
	prp := rxGen{depth: 1, maxSize: 8, counts: 2, neg: true, props: true}
	rxp := func(x rxGen) Profile {
		p := single(kindW(kRX, 10))
		p.Pats, p.Evs, p.Paths = [2]int{1, 2}, [2]int{10, 16}, [2]int{1, 1}
		p.RX = x
		return p
	}
	cr := single(kindW(kRX, 14, kS, 8, kPrefix, 4, kAB, 3, kWild, 4, kShell, 3, kN, 1, kEIC, 2))
	cr.RX = rxGen{depth: 3, maxSize: 20, counts: 3}
	register(&Prop{ID: "C08", Rule: "non-trivial: at least one event for which the model requires a match",
		Subs: []*Sub{
			{Name: "enumerated", Quick: 1 << 20, Thorough: 1 << 22, New: newS, Check: checkS, Gen: genRxEnum, Rule: "every expression of up to 4 (thorough: 5) operators and atoms over {a, b, ., [ab], (empty)} with | concatenation ? * + {2} {2,} {1,2}, in groups of ten instances, against every string over {a,b,c} up to length 4"},
			{Name: "small", Quick: 5000, Thorough: 150000, New: newS, Check: checkS, Gen: genRxSmall, Rule: "1-3 random expressions over two letters against every string over three letters up to length 5"},
			mSub("classes", 5000, 120000, rxp(big), "expressions with complemented classes and adversarial alphabets, sampled members and near misses"),
			mSub("nested", 9000, 200000, rxp(wide), "deeper nesting and larger counts"),
			mSub("properties", 250, 6000, rxp(prp), "expressions with Unicode properties"),
			mSub("crowd", 4000, 100000, cr, "expressions among patterns of other kinds on one path"),
			mSub("scale", 1200, 30000, scaled(cr, scaleOne), "as crowd, scaled up: "+scaleText),
		}})
}

// ---- specialised generators ----

func genExistsOrders(g *G, idx int) any {
	n := g.R(2, 4)
	names := shuffled(g, []string{"a", "b", "c", "d", "e", "f"})[:n]
	sort.Strings(names)
	c := &MCase{}
	for k, kk := 0, g.R(1, 3); k < kk; k++ {
		p := &Pat{}
		for _, nm := range names {
			path := []string{nm}
			if g.P(1, 6) {
				path = []string{nm, "x"}
			}
			switch g.W(3, 3, 3, 2) {
			case 0:
				p.F = append(p.F, PField{Path: path, Alts: []Alt{{T: "exists", B: true}}})
			case 1:
				p.F = append(p.F, PField{Path: path, Alts: []Alt{{T: "exists"}}})
			case 2:
				p.F = append(p.F, PField{Path: path, Alts: []Alt{{T: "s", S: "v"}}})
			}
		}
		if len(p.F) == 0 {
			p.F = []PField{{Path: []string{names[0]}, Alts: []Alt{{T: "exists"}}}}
		}
		c.Pats = append(c.Pats, MPat{X: fmt.Sprintf("P%d", k), Text: g.patText(p, style{}, true), P: p})
	}
	for mask := 0; mask < 1<<n; mask++ {
		v := &Val{K: "o"}
		for i, nm := range names {
			if mask>>i&1 == 1 {
				var x *Val
				switch g.W(10, 2, 2, 1, 1, 1, 1) {
				case 0:
					x = vStr("v")
				case 1:
					x = vStr("w")
				case 2:
					x = &Val{K: "o", M: []Member{{"x", vStr("v")}}}
				case 3:
					x = &Val{K: "a"}
				case 4:
					x = &Val{K: "o"}
				case 5:
					x = &Val{K: "a", E: []*Val{vStr("v"), vNum("3")}}
				case 6:
					x = &Val{K: "z"}
				}
				v.M = append(v.M, Member{nm, x})
			}
		}
		if g.P(1, 5) {
			v.M = append(v.M, Member{pick(g, []string{"0", "bb", "zz"}), vNum("1")})
		}
		v.M = shuffled(g, v.M)
		c.Evs = append(c.Evs, MEv{Text: g.eventText(v, style{}), V: v})
	}
	return c
}

func genNumCase(g *G, idx int) any {
	c := &MCase{}
	var fs []float64
	for i, k := 0, g.R(1, 4); i < k; i++ {
		fs = append(fs, genFloat(g, fs))
	}
	for i := range fs {
		var alts []Alt
		for j, k := 0, g.R(1, 2); j < k; j++ {
			f := fs[i]
			if j > 0 {
				f = genFloat(g, fs)
			}
			alts = append(alts, Alt{T: "n", S: numText(g, f)})
		}
		c.Pats = append(c.Pats, onePat(g, fmt.Sprintf("P%d", i), alts...))
	}
	v := &Vocab{prof: &Profile{StrMax: 4}, alpha: []rune("0123"), strs: []string{"1"}, floats: fs, names: []string{"a"}}
	for i, k := 0, g.R(4, 10); i < k; i++ {
		a := pick(g, c.Pats).P.F[0].Alts
		x := v.witness(g, &a[g.N(len(a))])
		if g.P(2, 5) {
			x = v.perturb(g, x)
		}
		e := &Val{K: "o", M: []Member{{"a", x}}}
		if g.P(1, 8) {
			e.M[0].V = &Val{K: "a", E: []*Val{vStr("x"), x}}
		}
		if g.P(1, 3) {
			e.M = append(e.M, Member{"zz", vNum(numText(g, genFloat(g, fs)))})
		}
		c.Evs = append(c.Evs, MEv{Text: g.eventText(e, genStyle(g)), V: e})
	}
	return c
}

var smallAlphas = []string{"ab", "ab", "a\"", "a\\", "abc", "aé", "a\U0001f600", "\U0001f600\U0001f601", "éè", "a*", "\x00a", "a\x7f", "a\uffff"}

func genStrSmall(g *G, idx int) any {
	c := &SCase{Alpha: pick(g, smallAlphas), Len: 4}
	al := []rune(c.Alpha)
	for i, k := 0, g.R(1, 5); i < k; i++ {
		var alts []Alt
		switch g.W(3, 3, 4) {
		case 0:
			for j, m := 0, g.R(1, 3); j < m; j++ {
				alts = append(alts, Alt{T: "s", S: genStr(g, al, 3)})
			}
		case 1:
			alts = append(alts, Alt{T: "prefix", S: genStr(g, al, 3)})
			if g.P(1, 3) {
				alts = append(alts, Alt{T: "s", S: genStr(g, al, 3)})
			}
		case 2:
			a := Alt{T: "anything-but"}
			for j, m := 0, g.R(1, 5); j < m; j++ {
				a.L = append(a.L, genStr(g, al, 3))
			}
			alts = append(alts, a)
		}
		c.Pats = append(c.Pats, onePat(g, fmt.Sprintf("P%d", i), alts...))
	}
	return c
}

func genGlobSmall(g *G, idx int) any {
	c := &SCase{Alpha: pick(g, smallAlphas), Len: 4}
	al := []rune(c.Alpha)
	if len(al) == 2 {
		c.Len = 5
	}
	for i, k := 0, g.R(1, 6); i < k; i++ {
		var a Alt
		switch g.W(5, 4, 2, 1, 1) {
		case 0:
			a = Alt{T: "shellstyle", S: genGlob(g, al, "shellstyle")}
		case 1:
			a = Alt{T: "wildcard", S: genGlob(g, al, "wildcard")}
		case 2:
			a = Alt{T: "s", S: genStr(g, al, 4)}
		case 3:
			a = Alt{T: "prefix", S: genStr(g, al, 3)}
		case 4:
			a = Alt{T: "anything-but", L: []string{genStr(g, al, 3), genStr(g, al, 3)}}
		}
		c.Pats = append(c.Pats, onePat(g, fmt.Sprintf("P%d", i), a))
	}
	if g.P(1, 6) {
		n := 0
		for i := range c.Pats {
			n += isNondet(&c.Pats[i].P.F[0].Alts[0])
			c.Pats[i].Speed = n <= 4
		}
	}
	return c
}

func genLongStr(g *G, idx int) any {
	c := &MCase{}
	n := pick(g, []int{50, 100, 255, 256, 257, 1000, 4096})
	al := genAlpha(g)
	base := make([]rune, n)
	for i := range base {
		base[i] = pick(g, al)
	}
	s := string(base)
	v := &Vocab{prof: &Profile{StrMax: 5}, alpha: al, strs: []string{s}, floats: []float64{1}, names: []string{"a"}}
	kinds := []int{kS, kPrefix, kAB, kWild, kEIC}
	for i, k := 0, g.R(1, 5); i < k; i++ {
		var a Alt
		switch pick(g, kinds) {
		case kS:
			a = Alt{T: "s", S: s}
		case kPrefix:
			rs := []rune(s)
			a = Alt{T: "prefix", S: string(rs[:len(rs)-g.N(3)])}
		case kAB:
			a = Alt{T: "anything-but", L: []string{s, mutateStr(g, s, al)}}
		case kWild:
			a = Alt{T: "shellstyle", S: strings.ReplaceAll(string(base[:20]), "*", "x") + "*" + strings.ReplaceAll(string(base[n-20:]), "*", "x")}
		case kEIC:
			a = Alt{T: "eic", S: s}
		}
		c.Pats = append(c.Pats, onePat(g, fmt.Sprintf("P%d", i), a))
	}
	for i := 0; i < 5; i++ {
		x := s
		switch g.N(4) {
		case 1:
			x = mutateStr(g, s, al)
		case 2:
			rs := []rune(s)
			x = string(rs[:n-1]) + string(pick(g, al))
		case 3:
			x = v.witness(g, &c.Pats[g.N(len(c.Pats))].P.F[0].Alts[0]).S
		}
		e := &Val{K: "o", M: []Member{{"a", vStr(x)}}}
		c.Evs = append(c.Evs, MEv{Text: g.eventText(e, genStyle(g)), V: e})
	}
	return c
}

var casedRunes = func() (out []rune) {
	for r := rune(0); r <= 0x1ffff; r++ {
		if len(caseOrbit(r)) > 0 {
			out = append(out, r)
		}
	}
	return
}()

func genCodepoints(g *G, idx int) any {
	const blk = 16
	if idx*blk >= len(casedRunes) {
		return nil
	}
	c := &SCase{}
	rs := casedRunes[idx*blk : min(len(casedRunes), (idx+1)*blk)]
	seen := map[rune]bool{}
	add := func(r rune) {
		if r >= 0 && r <= 0x10ffff && !(r >= 0xd800 && r <= 0xdfff) && !seen[r] {
			seen[r] = true
			c.Extra = append(c.Extra, string(r))
		}
	}
	for i, r := range rs {
		c.Pats = append(c.Pats, onePat(g, fmt.Sprintf("P%d", i), Alt{T: "eic", S: string(r)}))
		add(r)
		add(r - 1)
		add(r + 1)
		add(r ^ 0x20)
		for _, o := range caseOrbit(r) {
			add(o)
		}
		c.Extra = append(c.Extra, string([]rune{r, r}))
	}
	return c
}

func genEicWords(g *G, idx int) any {
	c := &MCase{}
	al := []rune{}
	at := g.N(len(casedRunes))
	for i, k := 0, g.R(2, 6); i < k; i++ {
		if g.P(1, 6) {
			at = g.N(len(casedRunes))
		}
		al = append(al, casedRunes[(at+g.N(40))%len(casedRunes)])
	}
	if g.P(1, 2) {
		al = append(al, []rune("aB1-ß")...)
	}
	v := &Vocab{prof: &Profile{StrMax: 8}, alpha: al, strs: []string{genStr(g, al, 8), genStr(g, al, 4)}, floats: []float64{1}, names: []string{"a"}}
	for i, k := 0, g.R(1, 6); i < k; i++ {
		kind := kEIC
		if g.P(1, 4) {
			kind = pick(g, []int{kS, kPrefix, kWild})
		}
		c.Pats = append(c.Pats, onePat(g, fmt.Sprintf("P%d", i), v.alt(g, kind)))
	}
	for i, k := 0, g.R(4, 10); i < k; i++ {
		x := v.witness(g, &c.Pats[g.N(len(c.Pats))].P.F[0].Alts[0])
		if g.P(1, 3) {
			x = v.perturb(g, x)
		}
		e := &Val{K: "o", M: []Member{{"a", x}}}
		c.Evs = append(c.Evs, MEv{Text: g.eventText(e, genStyle(g)), V: e})
	}
	return c
}

func genRxSmall(g *G, idx int) any {
	c := &SCase{Alpha: "abc", Len: 5}
	x := rxGen{alpha: []rune("ab"), depth: 3, maxSize: 16, counts: 3, neg: g.P(1, 10)}
	for i, k := 0, g.W(5, 2, 1)+1; i < k; i++ {
		n := x.gen(g)
		c.Pats = append(c.Pats, onePat(g, fmt.Sprintf("P%d", i), Alt{T: "regexp", RX: n, S: rxRender(g, n, 0)}))
	}
	return c
}

// rxEnum lists every expression with exactly n nodes.
var rxEnumMemo = map[int][]*RNode{}

func rxEnum(n int) []*RNode {
	if r, ok := rxEnumMemo[n]; ok {
		return r
	}
	var out []*RNode
	if n == 1 {
		out = []*RNode{{Op: "lit", R: 'a'}, {Op: "lit", R: 'b'}, {Op: "dot"},
			{Op: "set", Items: []RItem{{Lo: 'a', Hi: 'b'}}}, {Op: "cat"}}
	} else {
		for _, k := range rxEnum(n - 1) {
			for _, q := range [][2]int{{0, 1}, {0, -1}, {1, -1}, {2, 2}, {2, -1}, {1, 2}} {
				out = append(out, &RNode{Op: "rep", Min: q[0], Max: q[1], Kids: []*RNode{k}})
			}
		}
		for i := 1; i < n-1; i++ {
			for _, a := range rxEnum(i) {
				for _, b := range rxEnum(n - 1 - i) {
					out = append(out, &RNode{Op: "cat", Kids: []*RNode{a, b}}, &RNode{Op: "alt", Kids: []*RNode{a, b}})
				}
			}
		}
	}
	rxEnumMemo[n] = out
	return out
}

var rxEnumMax = func() int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 5
	}
	return 4
}()

func genRxEnum(g *G, idx int) any {
	for n := 1; n <= rxEnumMax; n++ {
		e := rxEnum(n)
		if idx < len(e) {
			node := e[idx]
			return &SCase{Alpha: "abc", Len: 4, Pats: []MPat{onePat(g, "P0", Alt{T: "regexp", RX: node, S: rxRender(g, node, 0)})}}
		}
		idx -= len(e)
	}
	return nil
}
