package main

// Regular expressions: syntax tree, rendering, sampling, and a matcher working on sets of
// positions (no automata), used as the oracle for C08.

import (
	"strconv"
	"strings"
	"unicode"
)

type RItem struct {
	Lo, Hi rune   `json:",omitempty"`
	P      string `json:"p,omitempty"` // property instead of range
	Neg    bool   `json:"neg,omitempty"`
}

type RNode struct {
	Op    string   `json:"op"` // lit dot set prop cat alt rep
	R     rune     `json:"r,omitempty"`
	Neg   bool     `json:"neg,omitempty"`
	Items []RItem  `json:"items,omitempty"`
	P     string   `json:"p,omitempty"`
	Kids  []*RNode `json:"kids,omitempty"`
	Min   int      `json:"min,omitempty"`
	Max   int      `json:"max,omitempty"` // -1 unbounded
}

var propNames = []string{
	"L", "Lu", "Ll", "Lt", "Lm", "Lo", "M", "Mn", "Mc", "Me", "N", "Nd", "Nl", "No",
	"P", "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "Z", "Zs", "Zl", "Zp",
	"S", "Sm", "Sc", "Sk", "So", "C", "Cc", "Cf", "Cn", "Co",
}

var catTables = func() map[string]*unicode.RangeTable {
	m := map[string]*unicode.RangeTable{}
	for _, p := range propNames {
		if t, ok := unicode.Categories[p]; ok {
			m[p] = t
		}
	}
	return m
}()

// hasProp gives the general category from Go's Unicode tables.
func hasProp(p string, r rune) bool {
	switch p {
	case "C":
		for _, q := range []string{"L", "M", "N", "P", "Z", "S"} {
			if unicode.Is(catTables[q], r) {
				return false
			}
		}
		return true
	case "Cn":
		return hasProp("C", r) && !unicode.Is(unicode.Cc, r) && !unicode.Is(unicode.Cf, r) && !unicode.Is(unicode.Co, r) && !unicode.Is(unicode.Cs, r)
	}
	return unicode.Is(catTables[p], r)
}

func (n *RNode) accepts(r rune) bool {
	switch n.Op {
	case "lit":
		return r == n.R
	case "dot":
		return true
	case "prop":
		return hasProp(n.P, r) != n.Neg
	case "set":
		in := false
		for _, it := range n.Items {
			if it.P != "" {
				if hasProp(it.P, r) != it.Neg {
					in = true
				}
			} else if r >= it.Lo && r <= it.Hi {
				in = true
			}
		}
		return in != n.Neg
	}
	panic(n.Op)
}

func (n *RNode) ends(s []rune, from []bool) []bool {
	out := make([]bool, len(s)+1)
	switch n.Op {
	case "cat":
		cur := from
		for _, k := range n.Kids {
			cur = k.ends(s, cur)
		}
		copy(out, cur)
	case "alt":
		for _, k := range n.Kids {
			for i, b := range k.ends(s, from) {
				if b {
					out[i] = true
				}
			}
		}
	case "rep":
		cur := append([]bool(nil), from...)
		for i := 0; i < n.Min; i++ {
			cur = n.Kids[0].ends(s, cur)
		}
		copy(out, cur)
		if n.Max < 0 {
			for {
				cur = n.Kids[0].ends(s, cur)
				changed := false
				for i, b := range cur {
					if b && !out[i] {
						out[i] = true
						changed = true
					}
				}
				if !changed {
					break
				}
			}
		} else {
			for i := n.Min; i < n.Max; i++ {
				cur = n.Kids[0].ends(s, cur)
				any := false
				for i, b := range cur {
					if b {
						any = true
						out[i] = true
					}
				}
				if !any {
					break
				}
			}
		}
	default:
		for i, b := range from {
			if b && i < len(s) && n.accepts(s[i]) {
				out[i+1] = true
			}
		}
	}
	return out
}

func (n *RNode) matches(s []rune) bool {
	from := make([]bool, len(s)+1)
	from[0] = true
	return n.ends(s, from)[len(s)]
}

// size estimates the number of atoms after expansion of counts.
func (n *RNode) size() int {
	switch n.Op {
	case "cat", "alt":
		t := 1
		for _, k := range n.Kids {
			t += k.size()
		}
		return t
	case "rep":
		m := n.Max
		if m < 0 {
			m = n.Min + 1
		}
		if m < 1 {
			m = 1
		}
		return 1 + m*n.Kids[0].size()
	}
	return 1
}

func (n *RNode) hasBigClass() bool {
	switch n.Op {
	case "prop":
		return true
	case "set":
		if n.Neg {
			return true
		}
		for _, i := range n.Items {
			if i.P != "" || i.Hi-i.Lo > 300 {
				return true
			}
		}
	}
	for _, k := range n.Kids {
		if k.hasBigClass() {
			return true
		}
	}
	return false
}

func (n *RNode) has(f func(*RNode) bool) bool {
	if f(n) {
		return true
	}
	for _, k := range n.Kids {
		if k.has(f) {
			return true
		}
	}
	return false
}

// ---- rendering ----

const rxMeta = "().*+?[]{}|~"

func rxLit(g *G, r rune) string {
	switch r {
	case '\n', '\r', '\t':
		if g.P(1, 2) {
			return string(r)
		}
		return map[rune]string{'\n': "~n", '\r': "~r", '\t': "~t"}[r]
	}
	if strings.ContainsRune(rxMeta, r) {
		return "~" + string(r)
	}
	if strings.ContainsRune("-^\\", r) && g.P(1, 2) {
		return "~" + string(r)
	}
	return string(r)
}

func rxClassChar(g *G, r rune) string {
	// CCchar excludes - [ ] and the escape character; ^ is allowed but escaped when it would come first
	if strings.ContainsRune("-[]^~", r) {
		return "~" + string(r)
	}
	switch r {
	case '\n', '\r', '\t':
		if g.P(1, 2) {
			return map[rune]string{'\n': "~n", '\r': "~r", '\t': "~t"}[r]
		}
		return string(r)
	}
	if strings.ContainsRune("().*+?{}|\\", r) && g.P(1, 3) {
		return "~" + string(r)
	}
	return string(r)
}

func rxItem(g *G, it RItem) string {
	if it.P != "" {
		if it.Neg {
			return "~P{" + it.P + "}"
		}
		return "~p{" + it.P + "}"
	}
	if it.Lo == it.Hi {
		return rxClassChar(g, it.Lo)
	}
	return rxClassChar(g, it.Lo) + "-" + rxClassChar(g, it.Hi)
}

// rxRender writes n as text. prec: 0 anything, 1 inside a branch, 2 needs an atom.
func rxRender(g *G, n *RNode, prec int) string {
	paren := func(s string) string { return "(" + s + ")" }
	switch n.Op {
	case "lit":
		return rxLit(g, n.R)
	case "dot":
		return "."
	case "prop":
		return rxItem(g, RItem{P: n.P, Neg: n.Neg})
	case "set":
		var b strings.Builder
		b.WriteString("[")
		if n.Neg {
			b.WriteString("^")
		}
		items := append([]RItem(nil), n.Items...)
		lead, trail := false, false
		// a bare hyphen may be written unescaped at either end
		for i, it := range items {
			if it.P == "" && it.Lo == '-' && it.Hi == '-' && len(items) > 1 && g.P(2, 3) {
				items = append(items[:i], items[i+1:]...)
				if g.B() {
					lead = true
				} else {
					trail = true
				}
				break
			}
		}
		if lead {
			b.WriteString("-")
		}
		for _, it := range items {
			b.WriteString(rxItem(g, it))
		}
		if trail {
			b.WriteString("-")
		}
		b.WriteString("]")
		return b.String()
	case "cat":
		if len(n.Kids) == 0 {
			if prec >= 2 {
				return "()"
			}
			return ""
		}
		var b strings.Builder
		for _, k := range n.Kids {
			b.WriteString(rxRender(g, k, 1))
		}
		if prec >= 2 {
			return paren(b.String())
		}
		return b.String()
	case "alt":
		parts := make([]string, len(n.Kids))
		for i, k := range n.Kids {
			parts[i] = rxRender(g, k, 0)
			if k.Op == "alt" {
				parts[i] = paren(parts[i])
			}
		}
		s := strings.Join(parts, "|")
		if prec >= 1 {
			return paren(s)
		}
		return s
	case "rep":
		num := func(n int) string {
			s := strconv.Itoa(n)
			if g.P(1, 12) {
				s = strings.Repeat("0", pick(g, []int{1, 1, 2, 3, 4, 9, 20})) + s
			}
			return s
		}
		k := rxRender(g, n.Kids[0], 2)
		if n.Kids[0].Op == "rep" {
			k = paren(k)
		}
		var q string
		switch {
		case n.Min == 0 && n.Max == 1:
			q = "?"
			if g.P(1, 4) {
				q = "{0,1}"
			}
		case n.Min == 0 && n.Max < 0:
			q = "*"
			if g.P(1, 4) {
				q = "{0,}"
			}
		case n.Min == 1 && n.Max < 0:
			q = "+"
			if g.P(1, 4) {
				q = "{1,}"
			}
		case n.Max < 0:
			q = "{" + num(n.Min) + ",}"
		case n.Min == n.Max:
			q = "{" + num(n.Min) + "}"
			if g.P(1, 5) {
				q = "{" + num(n.Min) + "," + num(n.Max) + "}"
			}
		default:
			q = "{" + num(n.Min) + "," + num(n.Max) + "}"
		}
		return k + q
	}
	panic(n.Op)
}

// ---- generation ----

type rxGen struct {
	alpha   []rune
	props   bool // allow property classes (expensive)
	depth   int
	maxSize int
	counts  int // largest count used in {lo,hi}
	neg     bool
}

func (x *rxGen) litRune(g *G) rune { return pick(g, x.alpha) }

func (x *rxGen) atom(g *G) *RNode {
	w := []int{10, 3, 4, 0, 0}
	if x.neg {
		w[3] = 1
	}
	if x.props {
		w[4] = 2
	}
	switch g.W(w...) {
	case 1:
		return &RNode{Op: "dot"}
	case 2:
		return x.set(g, false)
	case 3:
		return x.set(g, true)
	case 4:
		return &RNode{Op: "prop", P: pick(g, propNames), Neg: g.P(1, 4)}
	}
	return &RNode{Op: "lit", R: x.litRune(g)}
}

func (x *rxGen) set(g *G, neg bool) *RNode {
	n := &RNode{Op: "set", Neg: neg}
	for i, k := 0, g.R(1, 4); i < k; i++ {
		switch g.W(5, 3, 1) {
		case 0:
			r := x.litRune(g)
			n.Items = append(n.Items, RItem{Lo: r, Hi: r})
		case 1:
			a, b := x.litRune(g), x.litRune(g)
			if a > b {
				a, b = b, a
			}
			if b-a > 600 && !x.neg {
				b = a + rune(g.N(20))
			}
			if (a >= 0xD800 && a <= 0xDFFF) || (b >= 0xD800 && b <= 0xDFFF) {
				a, b = 'a', 'c'
			}
			n.Items = append(n.Items, RItem{Lo: a, Hi: b})
		case 2:
			if x.props {
				n.Items = append(n.Items, RItem{P: pick(g, propNames), Neg: g.P(1, 5)})
			} else {
				n.Items = append(n.Items, RItem{Lo: '-', Hi: '-'})
			}
		}
	}
	if neg && n.acceptsNothing() {
		n.Neg = false
	}
	return n
}

func (n *RNode) acceptsNothing() bool {
	for r := rune(0); r <= 0x10FFFF; r++ {
		if r == 0xD800 {
			r = 0xE000
		}
		if n.accepts(r) {
			return false
		}
	}
	return true
}

func (x *rxGen) node(g *G, depth int) *RNode {
	if depth <= 0 {
		return x.atom(g)
	}
	switch g.W(4, 4, 3, 4) {
	case 1: // cat
		n := &RNode{Op: "cat"}
		for i, k := 0, g.W(1, 6, 12, 10, 4); i < k; i++ {
			n.Kids = append(n.Kids, x.node(g, depth-1))
		}
		return n
	case 2: // alt
		n := &RNode{Op: "alt"}
		for i, k := 0, g.R(2, 4); i < k; i++ {
			if g.P(1, 8) {
				n.Kids = append(n.Kids, &RNode{Op: "cat"})
			} else {
				n.Kids = append(n.Kids, x.node(g, depth-1))
			}
		}
		// a|| keeps its meaning; ensure rendering of trailing empty branches is representable
		return n
	case 3: // rep
		k := x.node(g, depth-1)
		r := &RNode{Op: "rep", Kids: []*RNode{k}}
		switch g.W(4, 4, 4, 5) {
		case 0:
			r.Min, r.Max = 0, -1
		case 1:
			r.Min, r.Max = 1, -1
		case 2:
			r.Min, r.Max = 0, 1
		case 3:
			c := x.counts
			r.Min = g.R(0, c)
			switch g.W(3, 3, 2) {
			case 0:
				r.Max = r.Min
			case 1:
				r.Max = r.Min + g.N(c+1)
			case 2:
				r.Max = -1
			}
		}
		return r
	}
	return x.atom(g)
}

func (x *rxGen) gen(g *G) *RNode {
	n := x.node(g, x.depth)
	for n.size() > x.maxSize {
		// replace oversized expressions by one of their children
		if len(n.Kids) == 0 {
			break
		}
		n = n.Kids[0]
	}
	return n
}

// sample draws a string the expression matches (nil, false if it finds none).
func (n *RNode) sample(g *G, alpha []rune) ([]rune, bool) {
	switch n.Op {
	case "lit":
		return []rune{n.R}, true
	case "dot", "set", "prop":
		for i := 0; i < 6; i++ {
			if r := pick(g, alpha); n.accepts(r) {
				return []rune{r}, true
			}
		}
		for _, it := range n.Items {
			if it.P == "" && !n.Neg {
				return []rune{it.Lo + rune(g.N(int(it.Hi-it.Lo)+1))}, true
			}
		}
		for _, r := range sampleRunes {
			if n.accepts(r) {
				return []rune{r}, true
			}
		}
		return nil, false
	case "cat":
		var out []rune
		for _, k := range n.Kids {
			s, ok := k.sample(g, alpha)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	case "alt":
		i := g.N(len(n.Kids))
		for j := range n.Kids {
			if s, ok := n.Kids[(i+j)%len(n.Kids)].sample(g, alpha); ok {
				return s, true
			}
		}
		return nil, false
	case "rep":
		c := n.Min
		if n.Max < 0 {
			c += g.W(4, 4, 3, 2, 1)
		} else {
			c += g.N(n.Max - n.Min + 1)
		}
		var out []rune
		for i := 0; i < c; i++ {
			s, ok := n.Kids[0].sample(g, alpha)
			if !ok {
				return nil, c == 0
			}
			out = append(out, s...)
			if len(out) > 400 {
				break
			}
		}
		return out, true
	}
	panic(n.Op)
}

// a spread of well-known characters covering every category
var sampleRunes = []rune{'a', 'Z', '5', ' ', '!', '(', ')', '-', '_', '+', '$', '^', 0x00AB, 0x00BB, 0x01C5, 0x02B0, 0x05D0, 0x0301,
	0x0903, 0x20DD, 0x2160, 0x00BD, 0x2028, 0x2029, 0x00A9, 0x0007, 0x00AD, 0xE000, 0x0378, 0x10FFFF, 0x1F600, 0x4E00, 0x0391, 0x03B1, 0x10FFFD}
