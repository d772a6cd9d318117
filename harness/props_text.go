package main

// C13, C14: how an event is written.

import (
	"fmt"
	"strings"
	"unicode/utf8"

	quamina "quamina.net/go/quamina/v2"
)

// ---- C13 ----

type RPat struct {
	P     *Pat     `json:"p"`
	Texts []string `json:"texts"`
}

type REv struct {
	V     *Val     `json:"v"`
	Texts []string `json:"texts"`
}

type RCase struct {
	Pats []RPat `json:"pats"`
	Evs  []REv  `json:"evs"`
}

func checkRespelt(c any, r *Rec) error {
	m := c.(*RCase)
	var pats []MPat
	for i := range m.Pats {
		pats = append(pats, MPat{X: fmt.Sprintf("P%d", i), Text: m.Pats[i].Texts[0], P: m.Pats[i].P})
	}
	q1, q2 := mustNew(), mustNew()
	for i := range m.Pats {
		for k, q := range []*quamina.Quamina{q1, q2} {
			t := m.Pats[i].Texts[k]
			if err := q.AddPattern(pats[i].X, t); err != nil {
				return fmt.Errorf("AddPattern(%s): unexpected error %v", clip(t, 500), err)
			}
		}
	}
	for i := range m.Evs {
		ev := &m.Evs[i]
		want := expect(pats, indexEvent(ev.V))
		first := ""
		for k, t := range ev.Texts {
			for qi, q := range []*quamina.Quamina{q1, q2} {
				xs, err := q.MatchesForEvent([]byte(t))
				var got map[string]bool
				if err == nil {
					got, err = xset(xs)
				}
				if err != nil {
					return fmt.Errorf("event %s: unexpected error %v", clip(t, 800), err)
				}
				missing, extra := compare(got, want)
				if len(missing)+len(extra) > 0 {
					return fmt.Errorf("event %s: got %s; missing:%s; must not match:%s", clip(t, 1200), xnames(got), patsOf(pats, missing), patsOf(pats, extra))
				}
				if k == 0 && qi == 0 {
					first = xnames(got)
					r.NonTrivialIf(len(got) > 0)
					r.LabelIf(len(got) > 0, "event with a match")
				} else if xnames(got) != first {
					return fmt.Errorf("event %s with spelling %d of the patterns: got %s, but %s for %s", clip(t, 1200), qi, xnames(got), first, clip(ev.Texts[0], 1200))
				}
				r.Label("spellings tried")
			}
		}
	}
	return nil
}

// respellPat is the same pattern with other spellings: alternatives in another order or repeated, numbers respelt.
func respellPat(g *G, p *Pat) *Pat {
	out := &Pat{}
	for _, f := range p.F {
		nf := PField{Path: f.Path}
		for _, a := range f.Alts {
			if a.T == "n" {
				a.S = respell(g, a.S)
			}
			if a.T == "anything-but" {
				a.L = shuffled(g, a.L)
				if g.P(1, 4) {
					a.L = append(a.L, pick(g, a.L))
				}
			}
			nf.Alts = append(nf.Alts, a)
		}
		excl := len(nf.Alts) == 0
		for _, a := range nf.Alts {
			if a.T == "exists" || a.T == "anything-but" || a.T == "regexp" {
				excl = true
			}
		}
		if !excl {
			nf.Alts = shuffled(g, nf.Alts)
			if g.P(1, 4) && len(p.F) < 8 {
				nf.Alts = append(nf.Alts, pick(g, nf.Alts))
			}
		}
		out.F = append(out.F, nf)
	}
	out.F = shuffled(g, out.F)
	return out
}

var noiseStrs = []string{"", "}", "{", "]", "[", `"`, `\`, `\\`, `\"`, `","a":"b`, `{"a":["b"]}`, "a", "\n", "é", "\U0001f600", `}}}}`, `]]]]`, `\u0022`, "x\\", ":", ",", strings.Repeat(`\`, 5), strings.Repeat("ab\"", 30), "\u0000", "\u007f", "\uffff"}

// noise is a value under a name no pattern mentions.
func noise(g *G, names []string, depth int) *Val {
	k := g.W(4, 2, 1, 1, 1)
	if depth <= 0 && (k == 2 || k == 3) {
		k = 0
	}
	switch k {
	case 1:
		return vNum(numText(g, genFloat(g, nil)))
	case 2:
		o := &Val{K: "o"}
		used := map[string]bool{}
		for i, n := 0, g.N(5); i < n; i++ {
			nm := pick(g, names)
			if g.P(1, 4) {
				nm = pick(g, noiseStrs)
			}
			if !used[nm] {
				used[nm] = true
				o.M = append(o.M, Member{nm, noise(g, names, depth-1)})
			}
		}
		return o
	case 3:
		a := &Val{K: "a"}
		for i, n := 0, g.N(5); i < n; i++ {
			a.E = append(a.E, noise(g, names, depth-1))
		}
		return a
	case 4:
		return pick(g, []*Val{{K: "t"}, {K: "f"}, {K: "z"}})
	}
	return vStr(pick(g, noiseStrs))
}

// variant is the same data as far as the patterns can tell.
func variant(g *G, v *Val, t *trie, names []string, noisy bool) *Val {
	switch v.K {
	case "n":
		if g.P(2, 3) {
			return vNum(respell(g, v.S))
		}
		return v
	case "a":
		out := &Val{K: "a"}
		for _, e := range v.E {
			out.E = append(out.E, variant(g, e, t, names, noisy))
		}
		return out
	case "o":
		out := &Val{K: "o"}
		used := map[string]bool{}
		for _, m := range v.M {
			used[m.N] = true
		}
		for _, m := range v.M {
			var kt *trie
			if t != nil {
				kt = t.kids[m.N]
			}
			if kt == nil && noisy && g.P(1, 3) {
				if g.P(1, 3) {
					continue
				}
				out.M = append(out.M, Member{m.N, noise(g, names, 3)})
				continue
			}
			out.M = append(out.M, Member{m.N, variant(g, m.V, kt, names, noisy)})
		}
		if noisy {
			for i, n := 0, g.W(2, 3, 2, 1); i < n; i++ {
				nm := pick(g, names)
				if g.B() {
					nm = pick(g, []string{"", "zz", "a\\", "a\"", "aa", "ab", "b ", "\u0001", "é", "A", "aaa", "\U0010ffff", "{", "}", "]"})
				}
				if used[nm] || (t != nil && t.kids[nm] != nil) {
					continue
				}
				used[nm] = true
				out.M = append(out.M, Member{nm, noise(g, names, 4)})
			}
		}
		out.M = shuffled(g, out.M)
		return out
	}
	return v
}

// bigNoise gives an object of the event a member no pattern mentions which is large: deep, wide or long.
func bigNoise(g *G, v *Val, t *trie, names []string) {
	for t != nil && g.P(2, 3) {
		var at []int
		for i, m := range v.M {
			if kt := t.kids[m.N]; kt != nil && m.V.K == "o" {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			break
		}
		m := v.M[pick(g, at)]
		v, t = m.V, t.kids[m.N]
	}
	nm := pick(g, []string{"zz", "", "aa", "~~", "\U0010ffff"})
	for _, m := range v.M {
		if m.N == nm {
			return
		}
	}
	if t != nil && t.kids[nm] != nil {
		return
	}
	v.M = append(v.M, Member{nm, bigVal(g, names)})
	if g.B() {
		v.M = shuffled(g, v.M)
	}
}

func bigVal(g *G, names []string) *Val {
	leaf := noise(g, names, 0)
	switch g.N(6) {
	case 0, 1, 2:
		return deepVal(g, leaf, scaleSize(g, 1100), names)
	case 3:
		a := &Val{K: "a"}
		for i, n := 0, scaleSize(g, 1100); i < n; i++ {
			a.E = append(a.E, leaf)
		}
		return a
	case 4:
		o := &Val{K: "o"}
		for i, n := 0, scaleSize(g, 1100); i < n; i++ {
			o.M = append(o.M, Member{fmt.Sprintf("%s%d", pick(g, names), i), leaf})
		}
		return o
	}
	return vStr(strings.Repeat(pick(g, noiseStrs), scaleSize(g, 1100)))
}

func genRespelt(prof Profile) func(g *G, idx int) any {
	return func(g *G, idx int) any {
		p := prof
		v := genVocab(g, &p)
		c := &RCase{}
		var pats []*Pat
		for i, n := 0, g.R(p.Pats[0], p.Pats[1]); i < n; i++ {
			pats = append(pats, v.pattern(g))
		}
		var evs []*Val
		for i, n := 0, g.R(p.Evs[0], p.Evs[1]); i < n; i++ {
			evs = append(evs, v.event(g, pats))
		}
		big := p.Scale != (scaleW{})
		if big {
			pats = scaleUp(g, p.Scale, pats, evs, v)
		}
		for _, pat := range pats {
			c.Pats = append(c.Pats, RPat{pat, []string{
				g.patText(pat, style{}, false),
				g.patText(respellPat(g, pat), style{ws: g.N(4), esc: g.N(4), runs: big}, true),
			}})
		}
		t := buildTrie(pats)
		names := append([]string{"zz"}, v.names...)
		for _, e := range evs {
			re := REv{V: e, Texts: []string{g.eventText(e, style{})}}
			for k, kk := 0, g.R(2, 5); k < kk; k++ {
				vv := variant(g, e, t, names, k > 0)
				if big && k > 0 && g.B() {
					bigNoise(g, vv, t, names)
				}
				re.Texts = append(re.Texts, g.eventText(vv, style{ws: g.N(4), esc: g.N(4), runs: big}))
			}
			c.Evs = append(c.Evs, re)
		}
		return c
	}
}

// ---- C14 ----

// mnode is what the patterns mention.
type mnode struct {
	field  bool
	kids   map[string]*mnode
	pinned bool // has so many absent members that an object here is read to its end
}

func newMnode() *mnode { return &mnode{kids: map[string]*mnode{}} }

func (n *mnode) kid(name string) *mnode {
	k, ok := n.kids[name]
	if !ok {
		k = newMnode()
		n.kids[name] = k
	}
	return k
}

// mentionAll makes the patterns ask for everything in v, which is found at n.
func mentionAll(v *Val, n *mnode) {
	switch v.K {
	case "o":
		n.pinned = true
		for _, m := range v.M {
			mentionAll(m.V, n.kid(m.N))
		}
	case "a":
		n.field = true
		for _, e := range v.E {
			mentionAll(e, n)
		}
	default:
		n.field = true
	}
}

const absentNames = 12

// pinPatterns are patterns which mention exactly what n says.
func pinPatterns(n *mnode) []string {
	g := replayG(nil)
	var out []string
	var walk func(n *mnode, pre, post string)
	walk = func(n *mnode, pre, post string) {
		if n.pinned {
			var b strings.Builder
			for i := 0; i < absentNames; i++ {
				if i > 0 {
					b.WriteByte(',')
				}
				fmt.Fprintf(&b, `"absent %d":["x"]`, i)
			}
			out = append(out, pre+"{"+b.String()+"}"+post)
		}
		for _, k := range sortedKeys(n.kids) {
			kid := n.kids[k]
			nm := "{" + g.jstr(k, style{}) + ":"
			if kid.field {
				out = append(out, pre+nm+`["q"]}`+post)
			}
			walk(kid, pre+nm, "}"+post)
		}
	}
	walk(n, "", "")
	return out
}

type tparser struct {
	jp    *jparser
	root  *mnode
	depth int
}

// judgeEvent: must the text be accepted (Yes), refused (No), or is it left open?
// It walks the text as a strict parser does, knowing what the patterns mention, and gives up when
// the first error is in a part which they don't make anyone read.
func judgeEvent(b []byte, root *mnode) (Tri, string) {
	p := &jparser{b: b}
	p.ws()
	if p.i >= len(b) {
		return No, "nothing there"
	}
	if b[p.i] != '{' {
		return No, "not an object"
	}
	t := &tparser{jp: p, root: root}
	ok, read := t.object(root)
	if !ok {
		if read {
			return No, "malformed in a part that is read"
		}
		return Unknown, "malformed in a part that need not be read"
	}
	p.ws()
	if p.i < len(b) {
		if root.pinned {
			return No, "something follows the object"
		}
		return Unknown, "something follows the object"
	}
	if p.surrogate || p.badUTF8 || p.outside || !utf8.Valid(b) {
		return Unknown, "not UTF-8, or half a surrogate pair"
	}
	return Yes, ""
}

// value reads a value found where the patterns say n (nil: not mentioned). It returns whether the value is
// well-formed, and if not whether the error is in a part that has to be read.
func (t *tparser) value(n *mnode) (ok, read bool) {
	p := t.jp
	if p.i >= len(p.b) {
		return false, true
	}
	t.depth++
	defer func() { t.depth-- }()
	switch p.b[p.i] {
	case '{':
		if n == nil || len(n.kids) == 0 && !n.pinned {
			_, ok := p.value()
			return ok, false
		}
		return t.object(n)
	case '[':
		if n == nil {
			_, ok := p.value()
			return ok, false
		}
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			return true, true
		}
		for {
			p.ws()
			if ok, read := t.value(n); !ok {
				return ok, read
			}
			p.ws()
			if p.i >= len(p.b) {
				return false, true
			}
			switch p.b[p.i] {
			case ',':
				p.i++
			case ']':
				p.i++
				return true, true
			default:
				return false, true
			}
		}
	case '"':
		_, ok := p.str()
		return ok, n != nil && n.field
	default:
		_, ok := p.value()
		return ok, n != nil && n.field
	}
}

func (t *tparser) object(n *mnode) (ok, read bool) {
	p := t.jp
	p.i++
	p.ws()
	if p.i < len(p.b) && p.b[p.i] == '}' {
		p.i++
		return true, true
	}
	for {
		p.ws()
		name, ok := p.str()
		if !ok {
			return false, n.pinned
		}
		p.ws()
		if p.i >= len(p.b) || p.b[p.i] != ':' {
			return false, n.pinned
		}
		p.i++
		p.ws()
		if ok, read := t.value(n.kids[name]); !ok {
			return ok, read && n.pinned
		}
		p.ws()
		if p.i >= len(p.b) {
			return false, n.pinned
		}
		switch p.b[p.i] {
		case ',':
			p.i++
		case '}':
			p.i++
			return true, true
		default:
			return false, n.pinned
		}
	}
}

// ECase: texts given as events to an instance whose patterns mention all of V (when Pin) and Pats.
type ECase struct {
	Pats  []string `json:"pats,omitempty"`
	Pin   *Val     `json:"pin,omitempty"`
	Cuts  bool     `json:"cuts,omitempty"` // also try every proper prefix of Texts
	Texts [][]byte `json:"texts"`
}

func checkE(c any, r *Rec) error {
	m := c.(*ECase)
	q := mustNew()
	root := newMnode()
	if m.Pin != nil {
		mentionAll(m.Pin, root)
	}
	for i, p := range append(pinPatterns(root), m.Pats...) {
		if err := q.AddPattern(i, p); err != nil {
			return fmt.Errorf("AddPattern(%s): unexpected error %v", clip(p, 500), err)
		}
	}
	try := func(t []byte, cut bool) error {
		v, why := judgeEvent(t, root)
		if cut && v == Unknown && root.pinned {
			if w, _, _, ok := parseJSON(t); !ok || w.K != "o" {
				// it goes wrong only at its end, which has to be reached
				v, why = No, "cut short in a part that is skipped"
			}
		}
		before := string(t)
		xs, err := q.MatchesForEvent(t)
		if string(t) != before {
			return fmt.Errorf("event %q was changed", clip(before, 600))
		}
		if err != nil && len(xs) > 0 {
			return fmt.Errorf("event %q: both an error (%v) and matches %v", clip(before, 600), err, xs)
		}
		switch v {
		case Yes:
			r.Label("must be accepted")
			r.NonTrivial()
			if err != nil {
				return fmt.Errorf("event %q: unexpected error %v", clip(before, 800), err)
			}
		case No:
			r.Label("must be refused: " + why)
			if m.Pin != nil || len(t) > 1 {
				r.NonTrivial()
			}
			if err == nil {
				return fmt.Errorf("event %q is accepted (matches %v), but: %s", clip(before, 800), xs, why)
			}
		default:
			r.Label("left open: " + why)
		}
		return nil
	}
	for _, t := range m.Texts {
		if err := try(t, false); err != nil {
			return err
		}
		if m.Cuts {
			whole, _ := judgeEvent(t, root)
			for k := 0; k < len(t); k++ {
				// the rest of the text is still there behind the slice
				if err := try(t[:k], whole == Yes); err != nil {
					return fmt.Errorf("cut at %d: %v", k, err)
				}
			}
		}
	}
	return nil
}

var evProfile = &Profile{Kinds: kindW(kS, 20, kN, 8, kLit, 6, kPrefix, 4, kExT, 4, kExF, 4, kAB, 3), Paths: [2]int{1, 5}, Pats: [2]int{0, 5}, Evs: [2]int{1, 1}, Fields: [2]int{1, 3}, Alts: [2]int{1, 2}, Depth: 4, ArrayPct: 25, MixPct: 25, StrMax: 5, WildNames: true}

// anyObject is a JSON object of any shape.
func anyObject(g *G, names []string, depth int) *Val {
	o := &Val{K: "o"}
	used := map[string]bool{}
	for i, n := 0, g.W(2, 4, 4, 2, 1); i < n; i++ {
		nm := pick(g, names)
		if g.P(1, 6) {
			nm = pick(g, noiseStrs)
		}
		if strings.Contains(nm, "\n") || used[nm] {
			continue
		}
		used[nm] = true
		if depth > 0 && g.P(1, 3) {
			o.M = append(o.M, Member{nm, anyObject(g, names, depth-1)})
		} else {
			o.M = append(o.M, Member{nm, noise2(g, names, depth-1)})
		}
	}
	return o
}

func noise2(g *G, names []string, depth int) *Val {
	switch g.W(4, 3, 2, 2) {
	case 0:
		return noise(g, names, 0)
	case 1:
		a := &Val{K: "a"}
		for i, n := 0, g.W(1, 3, 3, 1); i < n; i++ {
			if depth > 0 {
				a.E = append(a.E, noise2(g, names, depth-1))
			} else {
				a.E = append(a.E, noise(g, names, 0))
			}
		}
		return a
	case 2:
		if depth > 0 {
			return anyObject(g, names, depth-1)
		}
	}
	return vNum(respell(g, fmtFloat(genFloat(g, nil))))
}

// bigObject is an object with something large in it, which breaks off the more easily the larger it is.
func bigObject(g *G, names []string) *Val {
	o := anyObject(g, names, g.N(3))
	in := o
	for g.P(1, 3) {
		var at []*Val
		for _, m := range in.M {
			if m.V.K == "o" {
				at = append(at, m.V)
			}
		}
		if len(at) == 0 {
			break
		}
		in = pick(g, at)
	}
	nm := pick(g, names)
	for _, m := range in.M {
		if m.N == nm {
			nm += "2"
		}
	}
	if strings.Contains(nm, "\n") {
		nm = "big"
	}
	for i := range in.M {
		if in.M[i].N == nm {
			return o
		}
	}
	in.M = append(in.M, Member{nm, bigVal(g, []string{"a", "b"})})
	in.M = shuffled(g, in.M)
	return o
}

// genBig: large objects, valid, cut and damaged, with patterns that ask for all, some or nothing of them.
func genBig(g *G, idx int) any {
	v := genVocab(g, evProfile)
	o := bigObject(g, v.names)
	st := style{ws: g.W(4, 1, 1), esc: g.N(4), runs: true}
	s := g.eventText(o, st)
	c := &ECase{Pin: &Val{K: "o"}, Texts: [][]byte{[]byte(s)}}
	switch g.N(4) {
	case 0:
		c.Pin = o
	case 1, 2:
		for _, m := range o.M {
			if g.B() && len(s) < 20000 {
				c.Pin.M = append(c.Pin.M, m)
			}
		}
	}
	cl := []byte("{}[]\"")
	for i, n := 0, g.R(4, 12); i < n; i++ {
		b := []byte(s)
		switch g.W(3, 3, 2, 3, 2) {
		case 0:
			b = b[:g.N(len(b))]
		case 1: // one byte for another: brackets mostly
			k := g.N(len(b))
			for j := 0; j < 20 && !strings.ContainsRune("{}[]\"", rune(b[k])); j++ {
				k = g.N(len(b))
			}
			b[k] = pick(g, cl)
		case 2: // a byte less
			k := g.N(len(b))
			b = append(b[:k], b[k+1:]...)
		case 3: // a run of brackets, somewhere
			k := g.N(len(b) + 1)
			x := strings.Repeat(pick(g, []string{"]", "}", "[", "{", "]}", `"`, `\`, ",", "[]", "{}", " "}), g.R(1, 3))
			b = append(b[:k], append([]byte(x), b[k:]...)...)
		case 4:
			// two closing brackets that follow each other, exchanged
			var at []int
			for k := 1; k < len(b); k++ {
				if b[k-1] == ']' && b[k] == '}' || b[k-1] == '}' && b[k] == ']' {
					at = append(at, k)
				}
			}
			if len(at) > 0 {
				k := pick(g, at)
				b[k-1], b[k] = b[k], b[k-1]
			}
		}
		c.Texts = append(c.Texts, b)
	}
	return c
}

// genValid: RFC 8259 objects of all shapes, with repeated names, under random patterns.
func genValid(g *G, idx int) any {
	c := &ECase{}
	v := genVocab(g, evProfile)
	var pats []*Pat
	for i, n := 0, g.R(0, 5); i < n; i++ {
		p := v.pattern(g)
		pats = append(pats, p)
		c.Pats = append(c.Pats, g.patText(p, style{}, false))
	}
	for i, n := 0, g.R(1, 5); i < n; i++ {
		var o *Val
		if g.B() {
			o = v.event(g, pats)
		} else {
			o = anyObject(g, v.names, g.N(5))
		}
		if g.P(1, 4) && len(o.M) > 0 {
			// a repeated name
			o.M = append(o.M, Member{pick(g, o.M).N, noise2(g, v.names, 2)})
		}
		if g.P(1, 8) {
			o.M = append(o.M, Member{"n", vNum(pick(g, []string{"1e400", "-1e400", "1e-400", "0e99999", "1E+0099", "123456789012345678901234567890", "0.000000000000000000000000000000000000001", "-0", "1" + strings.Repeat("0", 400)}))})
		}
		s := g.eventText(o, style{ws: g.N(4), esc: g.N(4)})
		c.Texts = append(c.Texts, []byte(s))
	}
	return c
}

func genCuts(g *G, idx int) any {
	v := genVocab(g, evProfile)
	o := anyObject(g, v.names, g.N(4))
	s := g.eventText(o, style{ws: g.N(3), esc: g.N(4)})
	c := &ECase{Cuts: true, Pin: o, Texts: [][]byte{[]byte(s)}}
	if g.P(1, 3) {
		// only the top level is read; the rest is skipped over
		c.Pin = &Val{K: "o"}
		if g.B() && len(o.M) > 0 {
			c.Pin.M = append(c.Pin.M, pick(g, o.M))
		}
	}
	return c
}

func genDamage(g *G, idx int) any {
	v := genVocab(g, evProfile)
	o := anyObject(g, v.names, g.N(4))
	s := g.eventText(o, style{ws: g.N(3), esc: g.N(4)})
	c := &ECase{Pin: o}
	if g.P(1, 4) {
		c.Pin = &Val{K: "o"}
		for _, m := range o.M {
			if g.B() {
				c.Pin.M = append(c.Pin.M, m)
			}
		}
	}
	for i, n := 0, g.R(4, 16); i < n; i++ {
		b := []byte(s)
		switch g.W(4, 2, 2, 3) {
		case 0: // one byte for another
			if len(b) > 0 {
				k := g.N(len(b))
				if g.B() {
					b[k] = byte(g.N(256))
				} else {
					b[k] = pick(g, []byte("{}[]:,\"\\01-+.eEtfn \x00\x1f\xf5\xff\x80\n\t\x7fu"))
				}
			}
		case 1: // a byte less
			if len(b) > 0 {
				k := g.N(len(b))
				b = append(b[:k], b[k+1:]...)
			}
		case 2: // a byte more
			k := g.N(len(b) + 1)
			x := pick(g, []byte("{}[]:,\"\\01-+.eEtfn \x00\x1f\xf5\xff\x80\n\t\x7fu"))
			b = append(b[:k], append([]byte{x}, b[k:]...)...)
		case 3:
			b = []byte(mutateText(g, s, evTokens))
		}
		c.Texts = append(c.Texts, b)
	}
	return c
}

func genEvSoup(g *G, idx int) any {
	leaf := vStr("")
	in := &Val{K: "o", M: []Member{{"a", leaf}, {"b", leaf}}}
	c := &ECase{Pin: &Val{K: "o", M: []Member{{"a", leaf}, {"b", in}, {"c", &Val{K: "a", E: []*Val{in, leaf}}}}}}
	toks := append([]string{`"a":`, `"b":`, `"c":`, `"c":[`, `"b":{`, `,"a":1`, `]`, `}`, `true`, `false`, `12`, `-1.5e+7`, `"x"`, `"\u00e9"`, `"\"`, `"é"`, `"\\"`, `"zz":`, `"zz":{"a`, `[]`, `{}`, `01`, `1.`, `1e`, `-`, `"\ud83d\ude00"`, `"\n`}, evTokens...)
	for i, n := 0, g.R(1, 6); i < n; i++ {
		var b strings.Builder
		if g.P(9, 10) {
			b.WriteString("{")
		}
		for j, k := 0, g.R(0, 12); j < k; j++ {
			if g.P(1, 20) {
				b.WriteByte(byte(g.N(256)))
			} else {
				b.WriteString(pick(g, toks))
			}
		}
		if g.P(1, 2) {
			b.WriteString("}")
		}
		c.Texts = append(c.Texts, []byte(b.String()))
	}
	return c
}

// genShortEv enumerates every short text.
func genShortEv(g *G, idx int) any {
	toks := []string{"{", "}", "[", "]", ":", ",", `"a"`, `"b"`, `"`, `\`, "1", "-", "0", ".", "e", "true", " ", "x", "\x01", `"\u0061"`}
	const perCase = 400
	leaf := vStr("")
	c := &ECase{Pin: &Val{K: "o", M: []Member{{"a", leaf}, {"b", &Val{K: "a", E: []*Val{&Val{K: "o", M: []Member{{"a", leaf}}}}}}}}}
	heads := []string{"", `{"a":`, `{"b":[`, `{"b":{"a":`, `{"zz":`, `{"a":1`, `{"a":"x",`}
	tails := []string{"", "}", "]}", "}}", `"}`}
	n := len(toks)
	total := len(heads) * len(tails)
	per := 1 + n + n*n + n*n*n
	at := idx * perCase
	for ; at < total*per && len(c.Texts) < perCase; at++ {
		ht, k := at/per, at%per
		mid := ""
		switch {
		case k == 0:
		case k < 1+n:
			mid = toks[k-1]
		case k < 1+n+n*n:
			k -= 1 + n
			mid = toks[k/n] + toks[k%n]
		default:
			k -= 1 + n + n*n
			mid = toks[k/n/n] + toks[k/n%n] + toks[k%n]
		}
		c.Texts = append(c.Texts, []byte(heads[ht%len(heads)]+mid+tails[ht/len(heads)]))
	}
	if len(c.Texts) == 0 {
		return nil
	}
	return c
}

func init() {
	all := kindW(kS, 30, kN, 16, kLit, 8, kPrefix, 8, kExT, 6, kExF, 6, kAB, 8, kWild, 5, kShell, 4, kEIC, 4, kRX, 2)
	mixed := Profile{Kinds: all, Paths: [2]int{1, 6}, Pats: [2]int{1, 6}, Evs: [2]int{2, 6}, Fields: [2]int{1, 4}, Alts: [2]int{1, 3}, Depth: 4, ArrayPct: 10, MixPct: 25, StrMax: 6, RX: lightRX, WildNames: true}
	sparse := mixed
	sparse.Paths, sparse.Pats, sparse.Fields, sparse.ArrayPct = [2]int{1, 3}, [2]int{1, 3}, [2]int{1, 2}, 25
	newR := func() any { return &RCase{} }
	newE := func() any { return &ECase{} }
	register(&Prop{ID: "C13", Rule: "non-trivial: an event with a match",
		Subs: []*Sub{
			{Name: "mixed", Quick: 40000, Thorough: 1000000, New: newR, Check: checkRespelt, Gen: genRespelt(mixed), Rule: "each event in 3-6 spellings: white space, order of members, escapes in names and values, numbers respelt, members no pattern mentions added, removed and replaced at all levels; each pattern in two spellings"},
			{Name: "sparse", Quick: 40000, Thorough: 1000000, New: newR, Check: checkRespelt, Gen: genRespelt(sparse), Rule: "the same with few patterns, so that most of the event is skipped or left unread"},
			{Name: "scale", Quick: 3000, Thorough: 80000, New: newR, Check: checkRespelt, Gen: genRespelt(scaled(mixed, scaleAll)), Rule: "as mixed, with long runs of white space and large members no pattern mentions, and cases scaled up: " + scaleText},
		}})
	register(&Prop{ID: "C14", Rule: "non-trivial: a text that must be accepted, or one that must be refused",
		Subs: []*Sub{
			{Name: "valid", Quick: 120000, Thorough: 4000000, New: newE, Check: checkE, Gen: genValid, Rule: "RFC 8259 objects of all shapes and spellings, some with repeated names, under random patterns: no error"},
			{Name: "cuts", Quick: 60000, Thorough: 2000000, New: newE, Check: checkE, Gen: genCuts, Rule: "every proper prefix of an event, the patterns mentioning everything in it, or some of its top level, and absent members at every level; the prefix is a slice with the rest of the event behind it"},
			{Name: "damage", Quick: 150000, Thorough: 4000000, New: newE, Check: checkE, Gen: genDamage, Rule: "events with a byte replaced, removed or inserted, or several tokens, judged by a strict parser that knows what the patterns make anyone read"},
			{Name: "big", Quick: 12000, Thorough: 300000, New: newE, Check: checkE, Gen: genBig, Rule: "objects with a deep, wide or long part, as they are, cut off, or with brackets and quotes replaced, removed, added or exchanged; the patterns mention all, some or nothing of them"},
			{Name: "soup", Quick: 100000, Thorough: 3000000, New: newE, Check: checkE, Gen: genEvSoup, Rule: "random JSON tokens and bytes"},
			{Name: "short", Quick: 1 << 20, Thorough: 1 << 20, New: newE, Check: checkE, Gen: genShortEv, Rule: "enumerated: every sequence of up to three of twenty tokens in each of 35 surroundings"},
		}})
}
