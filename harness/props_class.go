package main

// C09: Unicode classes.

import (
	"fmt"
	"os"
	"sort"
	"unicode"
	"unicode/utf8"

	quamina "quamina.net/go/quamina/v2"
)

// CCase: class expressions, each matching exactly one character, checked over scalars.
type CCase struct {
	Nodes    []*RNode `json:"nodes"`
	Texts    []string `json:"texts"`
	Together bool     `json:"together,omitempty"` // all in one instance, on one path
	Full     bool     `json:"full,omitempty"`     // every scalar, otherwise boundaries and a random stride
	Stride   int      `json:"stride"`
	Speed    bool     `json:"speed,omitempty"`
}

var boundaries = func() []rune {
	m := map[rune]bool{}
	add := func(r rune) {
		for d := rune(-1); d <= 1; d++ {
			c := r + d
			if c >= 0 && c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff) {
				m[c] = true
			}
		}
	}
	for _, p := range propNames {
		t := catTables[p]
		if t == nil {
			continue
		}
		for _, r := range t.R16 {
			for c := rune(r.Lo); c <= rune(r.Hi); c += rune(max(int(r.Stride), 1)) {
				if r.Stride > 1 || c == rune(r.Lo) || c == rune(r.Hi) {
					add(c)
				}
			}
		}
		for _, r := range t.R32 {
			for c := rune(r.Lo); c <= rune(r.Hi); c += rune(max(int(r.Stride), 1)) {
				if r.Stride > 1 || c == rune(r.Lo) || c == rune(r.Hi) {
					add(c)
				}
			}
		}
	}
	for _, r := range []rune{0, 0x20, 0x22, 0x5c, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff} {
		add(r)
	}
	var out []rune
	for r := range m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}()

// classEvent writes {"a":"<r>"} into buf.
func classEvent(buf []byte, r rune) []byte {
	buf = append(buf[:0], `{"a":"`...)
	switch {
	case r < 0x20:
		buf = append(buf, fmt.Sprintf(`\u%04x`, r)...)
	case r == '"' || r == '\\':
		buf = append(buf, '\\', byte(r))
	default:
		buf = utf8.AppendRune(buf, r)
	}
	return append(buf, `"}`...)
}

func checkC(c any, r *Rec) error {
	m := c.(*CCase)
	var qs []*quamina.Quamina
	g := replayG(nil)
	for i, n := range m.Nodes {
		if !m.Together || i == 0 {
			q := mustNew()
			if err := setSpeed(q, m.Speed); err != nil {
				return err
			}
			qs = append(qs, q)
		}
		text := `{"a":[{"regexp":` + g.jstr(m.Texts[i], style{}) + `}]}`
		if err := qs[len(qs)-1].AddPattern(i, text); err != nil {
			return fmt.Errorf("AddPattern(%s): unexpected error %v", text, err)
		}
		if n.Op == "prop" {
			r.Label("category " + n.P)
		} else {
			r.Label(n.Op)
		}
	}
	var buf []byte
	yes, no := 0, 0
	test := func(c rune) error {
		buf = classEvent(buf, c)
		var got [64]bool
		for k, q := range qs {
			xs, err := q.MatchesForEvent(buf)
			if err != nil {
				return fmt.Errorf("event %s: unexpected error %v", buf, err)
			}
			for _, x := range xs {
				i, ok := x.(int)
				if !ok || i >= len(m.Nodes) || (!m.Together && i != k) || got[i] {
					return fmt.Errorf("U+%04X: impossible or repeated identifier %v", c, x)
				}
				got[i] = true
			}
		}
		for i, n := range m.Nodes {
			want := n.accepts(c)
			if want {
				yes++
			} else {
				no++
			}
			if got[i] != want {
				return fmt.Errorf("U+%04X (category %s): %s accepts it: %v, expected %v", c, category(c), m.Texts[i], got[i], want)
			}
		}
		return nil
	}
	if m.Full {
		for c := rune(0); c <= 0x10ffff; c++ {
			if c == 0xd800 {
				c = 0xe000
			}
			if err := test(c); err != nil {
				return err
			}
		}
	} else {
		for _, c := range boundaries {
			if err := test(c); err != nil {
				return err
			}
		}
		for _, n := range m.Nodes {
			for _, it := range n.Items {
				for _, b := range []rune{it.Lo - 1, it.Lo, it.Lo + 1, it.Hi - 1, it.Hi, it.Hi + 1} {
					if b >= 0 && b <= 0x10ffff && !(b >= 0xd800 && b <= 0xdfff) {
						if err := test(b); err != nil {
							return err
						}
					}
				}
			}
		}
		if m.Stride > 0 {
			for c := rune(m.Stride % 97); c <= 0x10ffff; c += rune(m.Stride) {
				if c >= 0xd800 && c <= 0xdfff {
					continue
				}
				if err := test(c); err != nil {
					return err
				}
			}
		}
	}
	// a class never matches no character, or two
	for _, s := range []string{``, `aa`, `é1`, "\U00010000\U00010000"} {
		for _, q := range qs {
			xs, err := q.MatchesForEvent([]byte(`{"a":"` + s + `"}`))
			if err != nil || len(xs) > 0 {
				return fmt.Errorf("string %q: got %v, %v; a class matches exactly one character", s, xs, err)
			}
		}
	}
	r.labels["characters accepted"] += yes
	r.labels["characters not accepted"] += no
	r.NonTrivialIf(yes > 0)
	return nil
}

func category(c rune) string {
	for _, p := range propNames {
		if len(p) == 2 && hasProp(p, c) {
			return p
		}
	}
	return "?"
}

func classForm(p string, form int) (*RNode, string) {
	switch form {
	case 0:
		return &RNode{Op: "prop", P: p}, "~p{" + p + "}"
	case 1:
		return &RNode{Op: "prop", P: p, Neg: true}, "~P{" + p + "}"
	case 2:
		return &RNode{Op: "set", Items: []RItem{{P: p}}}, "[~p{" + p + "}]"
	case 3:
		return &RNode{Op: "set", Items: []RItem{{P: p, Neg: true}}}, "[~P{" + p + "}]"
	case 4:
		return &RNode{Op: "set", Neg: true, Items: []RItem{{P: p}}}, "[^~p{" + p + "}]"
	}
	return &RNode{Op: "set", Neg: true, Items: []RItem{{P: p, Neg: true}}}, "[^~P{" + p + "}]"
}

func genClassAll(g *G, idx int) any {
	full := os.Getenv("VERIF_TIER") == "thorough"
	const forms = 6
	if idx == 0 {
		return &CCase{Nodes: []*RNode{{Op: "dot"}}, Texts: []string{"."}, Full: true}
	}
	idx--
	if idx >= len(propNames)*forms {
		return nil
	}
	n, t := classForm(propNames[idx/forms], idx%forms)
	return &CCase{Nodes: []*RNode{n}, Texts: []string{t}, Full: full || idx%forms < 2, Stride: 101 + g.N(50)}
}

func genRandRune(g *G) rune {
	for {
		var r rune
		switch g.W(4, 3, 3, 3, 2) {
		case 0:
			r = rune(0x20 + g.N(0x5f))
		case 1:
			r = rune(g.N(0x800))
		case 2:
			r = rune(g.N(0x10000))
		case 3:
			r = rune(0x10000 + g.N(0x100000))
		case 4:
			r = boundaries[g.N(len(boundaries))]
		}
		if r < 0xd800 || r > 0xdfff {
			return r
		}
		if g.replaying {
			return 'a'
		}
	}
}

// genRangeRune gives ranges which never reach across the surrogates.
func genRange(g *G) (rune, rune) {
	a := genRandRune(g)
	var b rune
	switch g.W(4, 3, 2) {
	case 0:
		b = a + rune(g.N(40))
	case 1:
		b = a + rune(g.N(5000))
	case 2:
		b = genRandRune(g)
	}
	if b > 0x10ffff {
		b = 0x10ffff
	}
	if b >= 0xd800 && b <= 0xdfff {
		b = 0xe000
	}
	if a > b {
		a, b = b, a
	}
	return a, b
}

func genClassNode(g *G) *RNode {
	n := &RNode{Op: "set"}
	for i, k := 0, g.R(1, 5); i < k; i++ {
		switch g.W(4, 4, 2, 1) {
		case 0:
			r := genRandRune(g)
			n.Items = append(n.Items, RItem{Lo: r, Hi: r})
		case 1:
			a, b := genRange(g)
			n.Items = append(n.Items, RItem{Lo: a, Hi: b})
		case 2:
			n.Items = append(n.Items, RItem{P: pick(g, propNames), Neg: g.P(1, 4)})
		case 3:
			// overlap or touch an earlier one
			if len(n.Items) > 0 {
				it := pick(g, n.Items)
				if it.P == "" && it.Hi < 0x10fff0 && (it.Hi < 0xd7f0 || it.Hi >= 0xe000) {
					n.Items = append(n.Items, RItem{Lo: it.Hi + rune(g.N(2)), Hi: it.Hi + 1 + rune(g.N(5))})
				}
			}
		}
	}
	if len(n.Items) == 0 {
		n.Items = []RItem{{Lo: 'a', Hi: 'a'}}
	}
	return n
}

func genClassPair(g *G, idx int) any {
	n := genClassNode(g)
	c := &CCase{Stride: 500 + g.N(3000)}
	neg := *n
	neg.Neg = true
	c.Nodes = append(c.Nodes, n)
	c.Texts = append(c.Texts, rxRender(g, n, 0))
	if !neg.acceptsNothing() {
		c.Nodes = append(c.Nodes, &neg)
		c.Texts = append(c.Texts, rxRender(g, &neg, 0))
	}
	c.Together = g.P(1, 3)
	return c
}

func genClassTogether(g *G, idx int) any {
	c := &CCase{Together: true, Stride: 1000 + g.N(3000), Speed: g.P(1, 5)}
	for i, k := 0, g.R(2, 5); i < k; i++ {
		var n *RNode
		if g.P(2, 3) {
			var t string
			n, t = classForm(pick(g, propNames), g.W(5, 3, 1, 1, 1, 1))
			c.Texts = append(c.Texts, t)
		} else {
			n = genClassNode(g)
			c.Texts = append(c.Texts, rxRender(g, n, 0))
		}
		c.Nodes = append(c.Nodes, n)
	}
	return c
}

func init() {
	newC := func() any { return &CCase{} }
	register(&Prop{ID: "C09", Rule: "non-trivial: the class accepts at least one character tried",
		Subs: []*Sub{
			{Name: "categories", Quick: 1 << 12, Thorough: 1 << 12, New: newC, Check: checkC, Gen: genClassAll, HangCPU: 120e9, Rule: "enumerated: . and every category as ~p, ~P and in a class and complemented class; every Unicode scalar value for ., ~p and ~P (thorough: for all), otherwise all boundaries of all categories and a stride; oracle: Go's Unicode tables (same Unicode version as quamina's)"},
			{Name: "classes", Quick: 400, Thorough: 12000, New: newC, Check: checkC, Gen: genClassPair, Rule: "random classes of characters, ranges (overlapping, touching, astral, with ends at encoding-length boundaries) and categories, and their complements, separately and on one path; on the classes' and all categories' boundaries and a stride"},
			{Name: "together", Quick: 120, Thorough: 4000, New: newC, Check: checkC, Gen: genClassTogether, HangCPU: 120e9, Rule: "2-5 categories and classes as patterns on one path"},
		}})
}

var _ = unicode.Version
