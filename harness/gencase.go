package main

// Generators for vocabularies, patterns, events, and their JSON spellings.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// ---- JSON spelling ----

type style struct {
	ws   int  // 0 none .. 3 lots
	esc  int  // 0 minimal .. 3 escape nearly everything
	runs bool // now and then long runs of white space
}

func genStyle(g *G) style { return style{ws: g.W(6, 2, 1, 1), esc: g.W(6, 2, 1, 1)} }

func (g *G) ws(st style) string {
	if st.ws == 0 || !g.P(st.ws, 4) {
		return ""
	}
	if st.runs && g.P(1, 24) {
		return strings.Repeat(pick(g, []string{" ", "\n", "\t", "\r", "\r\n", "\n\t", "   \n"}), scaleSize(g, 1100))
	}
	return pick(g, []string{" ", "\n", "\t", "\r\n", "  ", " \t\n\r "})
}

func hex4(g *G, u uint16) string {
	s := fmt.Sprintf("%04x", u)
	if g.B() {
		s = strings.ToUpper(s)
	}
	return `\u` + s
}

func (g *G) jstr(s string, st style) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		force := st.esc > 0 && g.P(st.esc, 4)
		short := ""
		switch r {
		case '"':
			short = `\"`
		case '\\':
			short = `\\`
		case '/':
			short = `\/`
		case '\b':
			short = `\b`
		case '\f':
			short = `\f`
		case '\n':
			short = `\n`
		case '\r':
			short = `\r`
		case '\t':
			short = `\t`
		}
		must := r < 0x20 || r == '"' || r == '\\'
		switch {
		case must || force:
			if short != "" && !g.P(1, 3) {
				b.WriteString(short)
			} else if r > 0xFFFF {
				h, l := utf16.EncodeRune(r)
				b.WriteString(hex4(g, uint16(h)))
				b.WriteString(hex4(g, uint16(l)))
			} else {
				b.WriteString(hex4(g, uint16(r)))
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (g *G) writeVal(b *strings.Builder, v *Val, st style) {
	switch v.K {
	case "o":
		b.WriteString("{")
		b.WriteString(g.ws(st))
		for i, m := range v.M {
			if i > 0 {
				b.WriteString("," + g.ws(st))
			}
			b.WriteString(g.jstr(m.N, st) + g.ws(st) + ":" + g.ws(st))
			g.writeVal(b, m.V, st)
			b.WriteString(g.ws(st))
		}
		b.WriteString("}")
	case "a":
		b.WriteString("[" + g.ws(st))
		for i, e := range v.E {
			if i > 0 {
				b.WriteString("," + g.ws(st))
			}
			g.writeVal(b, e, st)
			b.WriteString(g.ws(st))
		}
		b.WriteString("]")
	case "s":
		b.WriteString(g.jstr(v.S, st))
	case "n":
		b.WriteString(v.S)
	case "t":
		b.WriteString("true")
	case "f":
		b.WriteString("false")
	case "z":
		b.WriteString("null")
	}
}

func (g *G) eventText(v *Val, st style) string {
	var b strings.Builder
	b.WriteString(g.ws(st))
	g.writeVal(&b, v, st)
	b.WriteString(g.ws(st))
	return b.String()
}

// patText renders a pattern; member order is shuffled when shuffle is set.
func (g *G) patText(p *Pat, st style, shuffle bool) string {
	type node struct {
		name string
		f    *PField
		kids []*node
	}
	root := &node{}
	for i := range p.F {
		f := &p.F[i]
		cur := root
		for j, seg := range f.Path {
			var nx *node
			if j < len(f.Path)-1 {
				for _, k := range cur.kids {
					if k.name == seg && k.f == nil {
						nx = k
					}
				}
			}
			if nx == nil {
				nx = &node{name: seg}
				cur.kids = append(cur.kids, nx)
			}
			cur = nx
		}
		cur.f = f
	}
	var b strings.Builder
	var w func(n *node)
	w = func(n *node) {
		if n.f != nil {
			b.WriteString("[" + g.ws(st))
			for i := range n.f.Alts {
				if i > 0 {
					b.WriteString("," + g.ws(st))
				}
				b.WriteString(g.altText(&n.f.Alts[i], st))
				b.WriteString(g.ws(st))
			}
			b.WriteString("]")
			return
		}
		kids := n.kids
		if shuffle {
			kids = shuffled(g, kids)
		}
		b.WriteString("{" + g.ws(st))
		for i, k := range kids {
			if i > 0 {
				b.WriteString("," + g.ws(st))
			}
			b.WriteString(g.jstr(k.name, st) + g.ws(st) + ":" + g.ws(st))
			w(k)
			b.WriteString(g.ws(st))
		}
		b.WriteString("}")
	}
	b.WriteString(g.ws(st))
	w(root)
	b.WriteString(g.ws(st))
	return b.String()
}

func (g *G) altText(a *Alt, st style) string {
	obj := func(name, val string) string {
		return "{" + g.ws(st) + g.jstr(name, st) + g.ws(st) + ":" + g.ws(st) + val + g.ws(st) + "}"
	}
	switch a.T {
	case "s":
		return g.jstr(a.S, st)
	case "n":
		return a.S
	case "true", "false", "null":
		return a.T
	case "exists":
		return obj("exists", strconv.FormatBool(a.B))
	case "anything-but":
		parts := make([]string, len(a.L))
		for i, s := range a.L {
			parts[i] = g.jstr(s, st)
		}
		return obj("anything-but", "["+g.ws(st)+strings.Join(parts, ","+g.ws(st))+g.ws(st)+"]")
	case "eic":
		return obj("equals-ignore-case", g.jstr(a.S, st))
	default:
		return obj(a.T, g.jstr(a.S, st))
	}
}

// ---- numbers ----

// respell writes the decimal number text n differently without changing its exact value.
func respell(g *G, n string) string {
	neg := strings.HasPrefix(n, "-")
	body := strings.TrimPrefix(n, "-")
	mant, exp := body, 0
	if i := strings.IndexAny(body, "eE"); i >= 0 {
		mant = body[:i]
		exp, _ = strconv.Atoi(body[i+1:])
	}
	ip, fp := mant, ""
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		ip, fp = mant[:i], mant[i+1:]
	}
	digits := strings.TrimLeft(ip+fp, "0")
	exp -= len(fp)
	for strings.HasSuffix(digits, "0") {
		digits = digits[:len(digits)-1]
		exp++
	}
	sign := ""
	if neg {
		sign = "-"
	}
	if digits == "" {
		return sign + pick(g, []string{"0", "0.0", "0e0", "0E5", "0.000", "0e-3", "0e+10", "0.0e-007"})
	}
	// value = 0.digits * 10^(len+exp)
	for tries := 0; tries < 4; tries++ {
		pad := g.W(6, 2, 1, 1)
		if pad == 3 {
			pad = g.N(12)
		}
		d := digits + strings.Repeat("0", pad)
		e := exp - pad
		pt := g.W(2, 3, 1, 1) // point position choice
		pos := len(d)
		switch pt {
		case 1:
			pos = 1 + g.N(len(d))
		case 2:
			pos = 0
		case 3:
			pos = -g.N(4)
		}
		var m string
		switch {
		case pos >= len(d):
			m = d
		case pos > 0:
			m = d[:pos] + "." + d[pos:]
		default:
			m = "0." + strings.Repeat("0", -pos) + d
		}
		ee := e + len(d) - pos
		if pos >= len(d) {
			ee = e
			if ee > 0 && ee < 25 && g.P(2, 3) {
				m += strings.Repeat("0", ee)
				ee = 0
			}
			if g.P(1, 5) {
				m += "." + strings.Repeat("0", 1+g.N(3))
			}
		}
		if ee == 0 && g.P(3, 4) {
			return sign + m
		}
		es := strconv.Itoa(abs(ee))
		if g.P(1, 5) {
			es = strings.Repeat("0", 1+g.N(2)) + es
		}
		s := ""
		if ee < 0 {
			s = "-"
		} else if g.P(1, 3) {
			s = "+"
		}
		out := sign + m + pick(g, []string{"e", "E"}) + s + es
		if len(out) < 60 || tries == 3 {
			return out
		}
	}
	return n
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func fmtFloat(f float64) string {
	s := strconv.FormatFloat(f, 'g', -1, 64)
	return s
}

// sameFloat writes a different decimal number which rounds to the same float64.
func sameFloat(g *G, f float64) string {
	if f == 0 {
		return pick(g, []string{"0", "-0", "-0.0", "1e-400", "-0e1"})
	}
	switch g.N(5) {
	case 0: // exact expansion
		bf := new(big.Float).SetFloat64(f)
		return bf.Text('g', 800)
	case 3: // without an exponent
		return plainText(g, f)
	case 4: // half-way to the next float64, or nearly
		next := math.Nextafter(f, math.Inf(1-2*g.N(2)))
		if math.IsInf(next, 0) {
			return strconv.FormatFloat(f, 'e', 16, 64)
		}
		bf := new(big.Float).SetPrec(2000).SetFloat64(f)
		bf.Add(bf, new(big.Float).SetFloat64(next)).Quo(bf, big.NewFloat(2))
		t := bf.Text('e', 800)
		i := strings.IndexByte(t, 'e')
		m, e := strings.TrimRight(t[:i], "0"), t[i:]
		if strings.HasSuffix(m, ".") {
			m += "0"
		}
		switch g.N(3) {
		case 0: // a little further from zero
			m += strings.Repeat("0", g.N(30)) + "1"
		case 1: // a little nearer to it
			if k := len(m) - 1; m[k] > '0' && m[k] <= '9' {
				m = m[:k] + string(m[k]-1) + strings.Repeat("9", 1+g.N(30))
			}
		}
		if v, err := strconv.ParseFloat(m+e, 64); err == nil && v == f {
			return m + e
		}
		return strconv.FormatFloat(f, 'e', 17, 64)
	case 1: // 17 significant digits
		return strconv.FormatFloat(f, 'e', 16, 64)
	default: // beyond precision: append digits to the 17-digit form when it still rounds back
		s := strconv.FormatFloat(f, 'e', 19, 64)
		i := strings.IndexByte(s, 'e')
		t := s[:i] + strconv.Itoa(g.N(1000)) + s[i:]
		if v, err := strconv.ParseFloat(t, 64); err == nil && v == f {
			return t
		}
		return s
	}
}

// plainText writes f without an exponent, if that's not too long.
func plainText(g *G, f float64) string {
	t := strconv.FormatFloat(f, 'f', -1, 64)
	if len(t) > 60 {
		return fmtFloat(f)
	}
	if g.P(1, 3) {
		if !strings.Contains(t, ".") {
			t += "."
		}
		t += strings.Repeat("0", 1+g.N(4))
	}
	return t
}

func genFloat(g *G, pool []float64) float64 {
	switch g.W(6, 3, 3, 2, 2, 2, 2) {
	case 5: // close to a power of two
		f := math.Ldexp(1, g.N(130)-30)
		for i := g.N(4); i > 0; i-- {
			f = math.Nextafter(f, math.Inf(1-2*g.N(2)))
		}
		if g.P(1, 3) {
			f = math.Ldexp(1, g.N(66)) + float64(g.N(5)-2)
		}
		if g.P(1, 4) {
			f = -f
		}
		return f
	case 6: // few to many digits, of any moderate magnitude
		t := ""
		for i := g.N(22); i >= 0; i-- {
			t += string(rune('0' + g.N(10)))
		}
		f, _ := strconv.ParseFloat(t+"e"+strconv.Itoa(g.N(30)-20), 64)
		if g.P(1, 4) {
			f = -f
		}
		return f
	case 0:
		return float64(g.N(12))
	case 1:
		return float64(g.N(2000)-1000) / float64(pick(g, []int{1, 10, 100, 4, 8, 3}))
	case 2:
		if len(pool) > 0 {
			f := pick(g, pool)
			switch g.N(4) {
			case 0:
				return f
			case 1:
				return safeFloat(math.Nextafter(f, math.Inf(1)))
			case 2:
				return safeFloat(math.Nextafter(f, math.Inf(-1)))
			default:
				return -f
			}
		}
		return 1
	case 3:
		return pick(g, []float64{0, 1e2, 1e15, 1e16, 9007199254740991, 9007199254740992, 9007199254740993, 1e21, 1e22, 1e300, 5e-324,
			2.2250738585072014e-308, math.MaxFloat64, -math.MaxFloat64, 0.1, 0.2, 0.3, 1e-7, 123456789.123456789, 4294967296, 2147483647, -1e-300, 5000000001, 9999999999.999999})
	default:
		f := math.Float64frombits(g.U64())
		return safeFloat(f)
	}
}

func safeFloat(f float64) float64 {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 7
	}
	return f
}

func numText(g *G, f float64) string {
	s := fmtFloat(f)
	switch g.W(4, 4, 3, 2) {
	case 3:
		return plainText(g, f)
	case 0:
		return jsonNum(s)
	case 1:
		return respell(g, s)
	default:
		return jsonNum(sameFloat(g, f))
	}
}

// jsonNum makes strconv's output legal JSON (it already is, except forms like 1e+06 which are legal too).
func jsonNum(s string) string { return s }

// ---- strings ----

var alphaSets = [][]rune{
	{'a', 'b', 'c'},
	{'a', 'b', 'A', 'B'},
	{'a', '"', '\\', 'b'},
	{'a', '*', '\\', 'b'},
	{'a', 'é', 'ê', 'b'},
	{'a', 0x7f, 0x80, 0x7ff, 0x800},
	{'a', 0xd7ff, 0xe000, 0xffff, 0x10000},
	{'a', 0xfffd, 0xfffe, 0x10ffff, 0x10fffe},
	{'a', '\n', '\t', 0, 0x1f},
	{'x', 0x1f600, 0x1f601, 0x1f640, 'é'},
	{'a', '/', 'u', '\\', '\b'},
	{'k', 'K', 's', 'S', 'ß'},
	{'Б', 'б', 'ж', 'Ж', 'a'},
	{'1', '2', '.', '-', 'e'},
	{'t', 'r', 'u', 'e', 'n'},
	{'~', '.', '(', ')', '|', '[', ']', '{', '}', '+', '?', '^', '-'},
	{0xf5, 0xff, 0x3f5, 0x10f5ff, 'a'},
	{'中', '丮', '串', 'a', ' '},
}

func genAlpha(g *G) []rune {
	a := append([]rune(nil), alphaSets[g.W(12, 3, 4, 4, 4, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 2, 2, 2)]...)
	if g.P(1, 4) {
		a = append(a, pick(g, alphaSets)...)
	}
	if g.P(1, 10) {
		r := rune(g.N(0x110000))
		if r >= 0xd800 && r <= 0xdfff {
			r = 0xe001
		}
		a = append(a, r)
	}
	return a
}

func genRunes(g *G, alpha []rune, max int) []rune {
	n := 0
	switch g.W(6, 2, 1) {
	case 0:
		n = g.N(min(max, 4) + 1)
	case 1:
		n = g.N(min(max, 8) + 1)
	case 2:
		n = g.N(max + 1)
	}
	out := make([]rune, n)
	for i := range out {
		out[i] = pick(g, alpha)
	}
	return out
}

func genStr(g *G, alpha []rune, max int) string { return string(genRunes(g, alpha, max)) }

// mutateStr makes a near miss of s.
func mutateStr(g *G, s string, alpha []rune) string {
	rs := []rune(s)
	switch g.N(8) {
	case 0: // append
		return s + string(pick(g, alpha))
	case 1: // truncate
		if len(rs) > 0 {
			return string(rs[:len(rs)-1])
		}
	case 2: // drop first
		if len(rs) > 0 {
			return string(rs[1:])
		}
	case 3: // replace one
		if len(rs) > 0 {
			i := g.N(len(rs))
			rs[i] = pick(g, alpha)
			return string(rs)
		}
	case 4: // insert
		i := g.N(len(rs) + 1)
		return string(rs[:i]) + string(pick(g, alpha)) + string(rs[i:])
	case 5: // delete one
		if len(rs) > 0 {
			i := g.N(len(rs))
			return string(rs[:i]) + string(rs[i+1:])
		}
	case 6: // prepend
		return string(pick(g, alpha)) + s
	case 7: // nudge a rune
		if len(rs) > 0 {
			i := g.N(len(rs))
			r := rs[i] + rune(g.N(3)-1)
			if utf8.ValidRune(r) {
				rs[i] = r
			}
			return string(rs)
		}
	}
	return s + "x"
}

func genGlob(g *G, alpha []rune, kind string) string {
	var b strings.Builder
	star := false
	for i, k := 0, g.R(0, 6); i < k; i++ {
		if !star && g.P(2, 5) {
			b.WriteByte('*')
			star = true
			continue
		}
		r := pick(g, alpha)
		if kind == "shellstyle" {
			if r == '*' {
				r = 'a'
			}
			b.WriteRune(r)
		} else if r == '*' || r == '\\' {
			b.WriteByte('\\')
			b.WriteRune(r)
		} else {
			b.WriteRune(r)
		}
		star = false
	}
	return b.String()
}

func globWitness(g *G, toks []globTok, alpha []rune) string {
	var b strings.Builder
	for _, t := range toks {
		if t.star {
			b.WriteString(genStr(g, alpha, 4))
		} else {
			b.WriteRune(t.r)
		}
	}
	return b.String()
}

func caseShuffle(g *G, s string) string {
	var b strings.Builder
	for _, r := range s {
		if o := caseOrbit(r); len(o) > 0 && g.P(1, 2) {
			b.WriteRune(pick(g, o))
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// ---- vocabulary, patterns, events ----

const (
	kS = iota
	kN
	kLit
	kPrefix
	kExT
	kExF
	kAB
	kWild
	kShell
	kEIC
	kRX
	nKinds
)

type Profile struct {
	Kinds             [nKinds]int
	Paths, Pats, Evs  [2]int
	Fields, Alts      [2]int
	Depth             int
	ArrayPct, MixPct  int
	StrMax            int
	EmptyPct          int // empty alternative lists, per 1000 fields
	RX                rxGen
	WildNames         bool
	DupX              bool
	NoiseStrRegexOnly bool
	Scale             scaleW // ways in which cases are scaled up
}

type Vocab struct {
	texts  []string // of values there are
	names  []string
	paths  [][]string
	alpha  []rune
	strs   []string
	floats []float64
	prof   *Profile
}

var plainNames = []string{"a", "b", "c", "d", "aa", "ab", "e", "f", "g", "h"}
var oddNames = []string{"", "é", "a b", `"`, `\`, "prefix", "exists", "0", "\t", "\u0001", "\u00ff", "\U0010ffff", "~", "A", ".", "a.b", "a\t", "\u007f", "中", "/", "\\n", "*"}

func genVocab(g *G, p *Profile) *Vocab {
	v := &Vocab{prof: p}
	nn := g.R(2, 5)
	v.names = append(v.names, plainNames[:nn]...)
	if p.WildNames && g.P(1, 3) {
		for i, k := 0, g.R(1, 3); i < k; i++ {
			nm := pick(g, oddNames)
			v.names = append(v.names, nm)
		}
	}
	v.alpha = genAlpha(g)
	np := g.R(p.Paths[0], p.Paths[1])
	seen := map[string]bool{}
	for i := 0; i < np*3 && len(v.paths) < np; i++ {
		d := 1 + g.W(5, 3, 2, 1)
		if d > p.Depth {
			d = p.Depth
		}
		var path []string
		if len(v.paths) > 0 && g.P(2, 5) {
			// extend or vary an existing path, so that paths share prefixes
			base := pick(g, v.paths)
			path = append(path, base[:g.R(0, len(base))]...)
		}
		for len(path) < d {
			path = append(path, pick(g, v.names))
		}
		if len(path) > p.Depth {
			path = path[:p.Depth]
		}
		k := strings.Join(path, pathSep)
		if len(path) == 0 || seen[k] {
			continue
		}
		seen[k] = true
		v.paths = append(v.paths, path)
	}
	if len(v.paths) == 0 {
		v.paths = [][]string{{"a"}}
	}
	ns := g.R(1, 4)
	for i := 0; i < ns; i++ {
		if len(v.strs) > 0 && g.P(1, 2) {
			v.strs = append(v.strs, mutateStr(g, pick(g, v.strs), v.alpha))
		} else {
			v.strs = append(v.strs, genStr(g, v.alpha, p.StrMax))
		}
	}
	for i, k := 0, g.R(1, 3); i < k; i++ {
		v.floats = append(v.floats, genFloat(g, v.floats))
	}
	return v
}

func (v *Vocab) str(g *G) string {
	switch g.W(5, 2, 2) {
	case 0:
		return pick(g, v.strs)
	case 1:
		return mutateStr(g, pick(g, v.strs), v.alpha)
	}
	return genStr(g, v.alpha, v.prof.StrMax)
}

func (v *Vocab) float(g *G) float64 {
	if g.P(1, 4) {
		return genFloat(g, v.floats)
	}
	return pick(g, v.floats)
}

// alt draws a value of a pattern. Now and then it is the text of an earlier one, of any kind, so that the same text
// is used in several senses.
func (v *Vocab) alt(g *G, kind int) Alt {
	if len(v.texts) > 0 && g.P(1, 7) {
		t, s := "", pick(g, v.texts)
		switch kind {
		case kS:
			t = "s"
		case kPrefix:
			t = "prefix"
		case kEIC:
			t = "eic"
		case kAB:
			return Alt{T: "anything-but", L: []string{s}}
		case kWild:
			if validGlob(s, true) {
				t = "wildcard"
			}
		case kShell:
			if validGlob(s, false) {
				t = "shellstyle"
			}
		}
		if t != "" {
			return Alt{T: t, S: s}
		}
	}
	a := v.alt1(g, kind)
	switch a.T {
	case "s", "prefix", "eic", "wildcard", "shellstyle":
		if len(v.texts) < 8 {
			v.texts = append(v.texts, a.S)
		} else {
			v.texts[g.N(8)] = a.S
		}
	}
	return a
}

func validGlob(s string, wildcard bool) bool {
	star, esc := false, false
	for _, r := range s {
		switch {
		case esc:
			if r != '*' && r != '\\' {
				return false
			}
			esc, star = false, false
		case r == '*':
			if star {
				return false
			}
			star = true
		case r == '\\' && wildcard:
			esc = true
		default:
			star = false
		}
	}
	return !esc
}

func (v *Vocab) alt1(g *G, kind int) Alt {
	switch kind {
	case kN:
		return Alt{T: "n", S: numText(g, v.float(g))}
	case kLit:
		return Alt{T: pick(g, []string{"true", "false", "null"})}
	case kPrefix:
		s := []rune(v.str(g))
		return Alt{T: "prefix", S: string(s[:g.R(0, len(s))])}
	case kExT:
		return Alt{T: "exists", B: true}
	case kExF:
		return Alt{T: "exists", B: false}
	case kAB:
		a := Alt{T: "anything-but"}
		for i, k := 0, g.R(1, 4); i < k; i++ {
			a.L = append(a.L, v.str(g))
		}
		return a
	case kWild, kShell:
		t := "wildcard"
		if kind == kShell {
			t = "shellstyle"
		}
		if g.P(1, 4) {
			// star inserted into a vocabulary string
			rs := []rune(v.str(g))
			var b strings.Builder
			at := g.N(len(rs) + 1)
			for i := 0; i <= len(rs); i++ {
				if i == at {
					b.WriteByte('*')
				}
				if i < len(rs) {
					r := rs[i]
					if r == '*' || r == '\\' {
						if t == "wildcard" {
							b.WriteByte('\\')
						} else if r == '*' {
							r = 'x'
						}
					}
					b.WriteRune(r)
				}
			}
			return Alt{T: t, S: b.String()}
		}
		return Alt{T: t, S: genGlob(g, v.alpha, t)}
	case kEIC:
		s := v.str(g)
		return Alt{T: "eic", S: caseShuffle(g, s)}
	case kRX:
		x := v.prof.RX
		x.alpha = v.alpha
		n := x.gen(g)
		return Alt{T: "regexp", RX: n, S: rxRender(g, n, 0)}
	}
	return Alt{T: "s", S: v.str(g)}
}

func (v *Vocab) field(g *G, path []string) PField {
	f := PField{Path: path}
	p := v.prof
	if p.EmptyPct > 0 && g.P(p.EmptyPct, 1000) {
		return f
	}
	kind := g.W(p.Kinds[:]...)
	f.Alts = append(f.Alts, v.alt(g, kind))
	if kind == kExT || kind == kExF || kind == kAB || kind == kRX {
		return f // exclusive kinds
	}
	ks := p.Kinds
	ks[kExT], ks[kExF], ks[kAB], ks[kRX] = 0, 0, 0, 0
	for i, k := 1, g.R(p.Alts[0], p.Alts[1]); i < k; i++ {
		f.Alts = append(f.Alts, v.alt(g, g.W(ks[:]...)))
	}
	return f
}

func prefixOf(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// pattern draws a pattern over the vocabulary's paths: no path repeated, none a prefix of another.
func (v *Vocab) pattern(g *G) *Pat {
	p := &Pat{}
	want := g.R(v.prof.Fields[0], v.prof.Fields[1])
	for _, path := range shuffled(g, v.paths) {
		if len(p.F) >= want {
			break
		}
		ok := true
		for _, f := range p.F {
			if prefixOf(f.Path, path) || prefixOf(path, f.Path) {
				ok = false
			}
		}
		if ok {
			p.F = append(p.F, v.field(g, path))
		}
	}
	return p
}

// witness draws a leaf value meant to satisfy a.
func (v *Vocab) witness(g *G, a *Alt) *Val {
	switch a.T {
	case "s":
		return vStr(a.S)
	case "n":
		f, err := strconv.ParseFloat(a.S, 64)
		if err != nil {
			return vNum(a.S)
		}
		switch g.N(4) {
		case 0:
			return vNum(a.S)
		case 1:
			return vNum(respell(g, a.S))
		}
		return vNum(numText(g, f))
	case "true":
		return &Val{K: "t"}
	case "false":
		return &Val{K: "f"}
	case "null":
		return &Val{K: "z"}
	case "prefix":
		return vStr(a.S + genStr(g, v.alpha, 4))
	case "exists":
		return v.anyLeaf(g)
	case "anything-but":
		s := pick(g, a.L)
		if g.P(1, 3) {
			s = v.str(g)
		} else {
			s = mutateStr(g, s, v.alpha)
		}
		return vStr(s)
	case "wildcard":
		return vStr(globWitness(g, wildcardToks(a.S), v.alpha))
	case "shellstyle":
		return vStr(globWitness(g, shellToks(a.S), v.alpha))
	case "eic":
		return vStr(caseShuffle(g, a.S))
	case "regexp":
		if s, ok := a.RX.sample(g, v.alpha); ok {
			if len(s) > 300 {
				s = s[:300]
			}
			return vStr(string(s))
		}
		return vStr(genStr(g, v.alpha, 4))
	}
	panic(a.T)
}

func (v *Vocab) anyLeaf(g *G) *Val {
	switch g.W(5, 3, 1, 1, 1) {
	case 1:
		return vNum(numText(g, v.float(g)))
	case 2:
		return &Val{K: "t"}
	case 3:
		return &Val{K: "f"}
	case 4:
		return &Val{K: "z"}
	}
	return vStr(v.str(g))
}

// perturb turns a leaf into a near miss.
func (v *Vocab) perturb(g *G, x *Val) *Val {
	switch x.K {
	case "s":
		if g.P(1, 8) {
			// same characters, other type
			if _, err := strconv.ParseFloat(x.S, 64); err == nil && validJSONNumber(x.S) {
				return vNum(x.S)
			}
			switch x.S {
			case "true":
				return &Val{K: "t"}
			case "false":
				return &Val{K: "f"}
			case "null":
				return &Val{K: "z"}
			}
		}
		return vStr(mutateStr(g, x.S, v.alpha))
	case "n":
		f, _ := strconv.ParseFloat(x.S, 64)
		switch g.N(4) {
		case 0:
			return vStr(x.S)
		case 1:
			return vNum(numText(g, safeFloat(math.Nextafter(f, math.Inf(1)))))
		case 2:
			return vNum(numText(g, safeFloat(math.Nextafter(f, math.Inf(-1)))))
		default:
			return vNum(numText(g, -f))
		}
	case "t":
		return pick(g, []*Val{vStr("true"), {K: "f"}, vNum("1")})
	case "f":
		return pick(g, []*Val{vStr("false"), {K: "z"}, {K: "t"}})
	}
	return pick(g, []*Val{vStr("null"), {K: "f"}, vStr("")})
}

type trie struct {
	alts []*Alt // alternatives on this exact path, over all patterns
	kids map[string]*trie
	ord  []string
	goal *Alt // alternative of the target pattern
	neg  bool // target wants absence
}

func newTrie() *trie { return &trie{kids: map[string]*trie{}} }

func (t *trie) at(path []string) *trie {
	for _, s := range path {
		k, ok := t.kids[s]
		if !ok {
			k = newTrie()
			t.kids[s] = k
			t.ord = append(t.ord, s)
		}
		t = k
	}
	return t
}

func buildTrie(pats []*Pat) *trie {
	t := newTrie()
	for _, p := range pats {
		for i := range p.F {
			n := t.at(p.F[i].Path)
			for j := range p.F[i].Alts {
				n.alts = append(n.alts, &p.F[i].Alts[j])
			}
		}
	}
	return t
}

type evGen struct {
	v     *Vocab
	root  *trie
	size  int
	aim   bool // an attempt to satisfy the target
	leafs map[string]int
	maxSz int
}

func (e *evGen) leaf(g *G, t *trie, aim bool) *Val {
	e.size++
	if t != nil && aim && t.goal != nil {
		return e.v.witness(g, t.goal)
	}
	if t != nil && len(t.alts) > 0 && g.P(4, 5) {
		w := e.v.witness(g, pick(g, t.alts))
		if g.P(1, 3) {
			w = e.v.perturb(g, w)
		}
		return w
	}
	return e.v.anyLeaf(g)
}

func (e *evGen) node(g *G, t *trie, depth int, aim bool) *Val {
	e.size++
	p := e.v.prof
	if e.size < e.maxSz && depth > 0 && g.P(p.ArrayPct, 100) {
		a := &Val{K: "a"}
		n := g.W(1, 4, 6, 4, 2)
		goal := -1
		if aim && n > 0 {
			goal = g.N(n)
		}
		split := aim && n > 1 && g.P(1, 6) // deliberately spread the target over elements
		for i := 0; i < n; i++ {
			a.E = append(a.E, e.node(g, t, depth+1, (i == goal) || (split && g.B())))
		}
		return a
	}
	wantObj := t != nil && len(t.kids) > 0
	wantLeaf := t == nil || len(t.alts) > 0
	if aim && t != nil {
		if t.goal != nil || t.neg {
			wantLeaf = true
			if t.goal != nil {
				wantObj = false
			}
		} else {
			wantLeaf = false
		}
	}
	if depth == 0 {
		wantObj, wantLeaf = true, false
	}
	if wantObj && wantLeaf {
		if g.P(p.MixPct, 100) {
			wantObj = false
		} else {
			wantLeaf = false
		}
	}
	if !wantObj && !aim && g.P(1, 14) && e.size < e.maxSz {
		// a structure where a leaf is expected
		switch g.N(3) {
		case 0:
			return &Val{K: "o"}
		case 1:
			return &Val{K: "a"}
		default:
			return &Val{K: "o", M: []Member{{pick(g, e.v.names), e.leaf(g, nil, false)}}}
		}
	}
	if wantObj && depth > 0 && !aim && g.P(1, 10) {
		return e.leaf(g, t, false)
	}
	if !wantObj {
		return e.leaf(g, t, aim)
	}
	o := &Val{K: "o"}
	used := map[string]bool{}
	if t != nil {
		for _, name := range t.ord {
			k := t.kids[name]
			if e.size > e.maxSz {
				break
			}
			if aim && k.neg {
				if len(k.kids) == 0 && !g.P(1, 10) {
					continue
				}
			}
			kaim := aim && k.hasGoal()
			if !kaim && !g.P(7, 10) {
				continue
			}
			if kaim && g.P(1, 25) {
				continue
			}
			used[name] = true
			o.M = append(o.M, Member{name, e.node(g, k, depth+1, kaim)})
		}
	}
	for i, n := 0, g.W(8, 3, 2, 1); i < n && e.size < e.maxSz; i++ {
		name := pick(g, e.v.names)
		if g.P(1, 3) {
			name = pick(g, []string{"z", "y", "", "aaa", "~~", "\u0002", "é", "x\\", "x\"", "ab"})
		}
		if used[name] || (t != nil && t.kids[name] != nil && t.kids[name].neg && aim) {
			continue
		}
		used[name] = true
		var kt *trie
		if t != nil {
			kt = t.kids[name]
		}
		if g.P(1, 5) {
			o.M = append(o.M, Member{name, e.noise(g, 2)})
		} else {
			o.M = append(o.M, Member{name, e.node(g, kt, depth+1, false)})
		}
	}
	o.M = shuffled(g, o.M)
	return o
}

func (t *trie) hasGoal() bool {
	if t.goal != nil {
		return true
	}
	for _, k := range t.kids {
		if k.hasGoal() {
			return true
		}
	}
	return false
}

// noise is a structure unrelated to the patterns, but made of their names.
func (e *evGen) noise(g *G, depth int) *Val {
	e.size++
	if depth == 0 || e.size > e.maxSz {
		return e.v.anyLeaf(g)
	}
	switch g.W(3, 2, 2) {
	case 1:
		o := &Val{K: "o"}
		used := map[string]bool{}
		for i, n := 0, g.N(3); i < n; i++ {
			name := pick(g, e.v.names)
			if !used[name] {
				used[name] = true
				o.M = append(o.M, Member{name, e.noise(g, depth-1)})
			}
		}
		return o
	case 2:
		a := &Val{K: "a"}
		for i, n := 0, g.N(4); i < n; i++ {
			a.E = append(a.E, e.noise(g, depth-1))
		}
		return a
	}
	return e.v.anyLeaf(g)
}

func (v *Vocab) event(g *G, pats []*Pat) *Val {
	t := buildTrie(pats)
	e := &evGen{v: v, root: t, maxSz: 60}
	aim := len(pats) > 0 && g.P(7, 10)
	if aim {
		target := pick(g, pats)
		for i := range target.F {
			f := &target.F[i]
			n := t.at(f.Path)
			if len(f.Alts) == 0 {
				continue
			}
			a := &f.Alts[g.N(len(f.Alts))]
			if a.T == "exists" && !a.B {
				n.neg = true
			} else {
				n.goal = a
			}
		}
	}
	return e.node(g, t, 0, aim)
}

func validJSONNumber(s string) bool {
	i := 0
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i >= len(s) {
		return false
	}
	if s[i] == '0' {
		i++
	} else if s[i] >= '1' && s[i] <= '9' {
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
	} else {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		st := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == st {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		st := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == st {
			return false
		}
	}
	return i == len(s)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
