package main

// C10, C11: the languages AddPattern accepts.

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// LCase: texts given to AddPattern.
type LCase struct {
	Texts [][]byte `json:"texts"`
}

const costLimit = 6000
const rxCostLimit = 2500

// checkTrailing wants all texts refused: for the recorded finding about text after the pattern.
func checkTrailing(c any, r *Rec) error {
	for _, t := range c.(*LCase).Texts {
		if err := mustNew().AddPattern("x", string(t)); err == nil {
			return fmt.Errorf("AddPattern(%s): an error was expected", clip(string(t), 300))
		}
	}
	return nil
}

func checkL(c any, r *Rec) error {
	m := c.(*LCase)
	for _, t := range m.Texts {
		v := judgePattern(t)
		if v.cost > costLimit {
			r.Label("too costly, not tried")
			continue
		}
		if v.trailing {
			// a recorded finding: whatever follows a well-formed pattern is ignored
			r.Label("followed by something, not judged")
			v.t = Unknown
		}
		q := mustNew()
		err := q.AddPattern("x", string(t))
		switch v.t {
		case Yes:
			r.Label("must be accepted")
			r.NonTrivial()
			if err != nil {
				return fmt.Errorf("AddPattern(%q): unexpected error %v", clip(string(t), 600), err)
			}
		case No:
			r.Label("must be refused: " + v.why)
			r.NonTrivialIf(v.why != "not JSON" && v.why != "not UTF-8")
			if err == nil {
				return fmt.Errorf("AddPattern(%q) returned no error, but: %s", clip(string(t), 600), v.why)
			}
		default:
			if v.why != "" {
				r.Label("left open: " + v.why)
			}
		}
		// whatever was decided, the instance has to be usable
		for _, ev := range []string{`{}`, `{"a":"a","b":{"a":[1,"b",{"a":null}]}}`} {
			xs, err2 := q.MatchesForEvent([]byte(ev))
			if err2 != nil {
				return fmt.Errorf("after AddPattern(%q): event %s: %v", clip(string(t), 600), ev, err2)
			}
			if err != nil && len(xs) > 0 {
				return fmt.Errorf("AddPattern(%q) failed (%v) but event %s is matched", clip(string(t), 600), err, ev)
			}
		}
	}
	return nil
}

var patTokens = []string{"{", "}", "[", "]", ":", ",", `"`, `"a"`, `"exists"`, `"prefix"`, `"wildcard"`, `"shellstyle"`, `"anything-but"`, `"equals-ignore-case"`, `"regexp"`,
	"true", "false", "null", "0", "1.5", "-1", "1e3", "01", "-", "+1", "1.", ".5", "nul", "TRUE", `\`, `*`, `**`, " ", "\n", "\t", "\x00", "\v", `\u0041`, `\ud800`, `\udc00`, `\x`, `{"exists":true}`,
	`{"exists":"yes"}`, `{"exists":1}`, `{"prefix":1}`, `{"prefix":["a"]}`, `{"prefix":"a","exists":true}`, `{"anything-but":[]}`, `{"anything-but":"a"}`, `{"anything-but":[1]}`, `{"anything-but":["a","b"]}`, `{"anything-but":[["a"]]}`,
	`{"wildcard":"a**b"}`, `{"wildcard":"a\\"}`, `{"wildcard":"\\a"}`, `{"wildcard":"a*\\*"}`, `{"wildcard":null}`, `{"wildcard":"\\\\*"}`, `{"shellstyle":"**"}`, `{"shellstyle":true}`, `{"shellstyle":"*a*"}`, `{"equals-ignore-case":3}`,
	`{"equals-ignore-case":"aB"}`, `{"regexp":"a|b"}`, `{"regexp":"("}`, `{"regexp":7}`, `{"nonesuch":"a"}`, `{}`, `[]`, `["a"]`, `{"a":["b"]}`, `/*c*/`, "\xff", "\xc3", "\xed\xa0\x80", "é", "\ufeff", "\u00a0", "\f", "\u2028"}

// mutateText damages a text at the level of bytes or tokens.
func mutateText(g *G, s string, toks []string) string {
	for k := 0; k < 3; k++ {
		n := len(s)
		switch g.N(8) {
		case 0: // insert a token
			i := g.N(n + 1)
			s = s[:i] + pick(g, toks) + s[i:]
		case 1: // delete some bytes
			if n > 0 {
				i := g.N(n)
				j := min(n, i+1+g.N(4))
				s = s[:i] + s[j:]
			}
		case 2: // replace a byte by a token
			if n > 0 {
				i := g.N(n)
				s = s[:i] + pick(g, toks) + s[i+1:]
			}
		case 3: // duplicate a piece
			if n > 0 {
				i := g.N(n)
				j := min(n, i+1+g.N(12))
				s = s[:j] + s[i:]
			}
		case 4: // truncate
			s = s[:g.N(n+1)]
		case 5: // swap two bytes
			if n > 1 {
				i := g.N(n - 1)
				b := []byte(s)
				b[i], b[i+1] = b[i+1], b[i]
				s = string(b)
			}
		case 6: // replace a structural character by another
			var at []int
			for i := 0; i < n; i++ {
				if strings.IndexByte(`{}[]:,"`, s[i]) >= 0 {
					at = append(at, i)
				}
			}
			if len(at) > 0 {
				i := pick(g, at)
				s = s[:i] + string(`{}[]:,"`[g.N(7)]) + s[i+1:]
			}
		case 7: // replace one value by a token
			var at []int
			for i := 0; i+1 < n; i++ {
				if s[i] == ':' || s[i] == '[' || s[i] == ',' {
					at = append(at, i+1)
				}
			}
			if len(at) > 0 {
				i := pick(g, at)
				j := i
				for j < n && strings.IndexByte(`,]}`, s[j]) < 0 {
					j++
				}
				s = s[:i] + pick(g, toks) + s[j:]
			}
		}
		if !g.P(1, 4) {
			break
		}
	}
	return s
}

var langProfile = &Profile{Kinds: kindW(kS, 10, kN, 5, kLit, 4, kPrefix, 5, kExT, 4, kExF, 4, kAB, 6, kWild, 8, kShell, 5, kEIC, 5, kRX, 5), Paths: [2]int{1, 4}, Pats: [2]int{1, 2}, Fields: [2]int{1, 4}, Alts: [2]int{1, 3}, Depth: 3, StrMax: 6, RX: rxGen{depth: 2, maxSize: 8, counts: 3}, EmptyPct: 30, WildNames: true}

func genPatMutants(g *G, idx int) any {
	c := &LCase{}
	v := genVocab(g, langProfile)
	for i, k := 0, g.R(1, 3); i < k; i++ {
		s := g.patText(v.pattern(g), genStyle(g), true)
		c.Texts = append(c.Texts, []byte(s))
		for j, l := 0, g.R(1, 6); j < l; j++ {
			c.Texts = append(c.Texts, []byte(mutateText(g, s, patTokens)))
		}
	}
	return c
}

// genPatGrammar derives patterns in which each rule may be broken at one place.
func genPatGrammar(g *G, idx int) any {
	c := &LCase{}
	for i, k := 0, g.R(1, 5); i < k; i++ {
		broken := g.P(1, 2)
		d := &deriver{g: g, broken: broken}
		t := d.object(0)
		if broken && g.P(1, 6) {
			t = foreign(g, t)
		}
		c.Texts = append(c.Texts, []byte(t))
	}
	return c
}

// foreign puts something which is no JSON, though often taken for white space or a comment, between two tokens.
func foreign(g *G, s string) string {
	at := []int{0, 0}
	in := false
	for i := 0; i < len(s); i++ {
		switch {
		case in && s[i] == '\\':
			i++
		case s[i] == '"':
			in = !in
		case !in && strings.IndexByte("{}[]:,", s[i]) >= 0:
			at = append(at, i, i+1)
		}
	}
	i := pick(g, at)
	if i >= len(s) && i > 0 {
		i = len(s) - 1
	}
	return s[:i] + pick(g, []string{"\ufeff", "\u00a0", "\v", "\f", "\x00", "\u2028", "\u0085", "\u200b", "\x1e", "\x1a", "\x7f", "\b", "//c\n", "/**/", "#\n", "--\n", ",", ":", ")]}'", "\xff\xfe", "\xef\xbb", `\n`, "\u3000"}) + s[i:]
}

type deriver struct {
	g      *G
	broken bool // still one rule to break
	names  int
}

func (d *deriver) hit(n int) bool {
	if d.broken && d.g.P(1, n) {
		d.broken = false
		return true
	}
	return false
}

func (d *deriver) name() string {
	d.names++
	if d.g.P(1, 4) {
		return d.g.jstr(fmt.Sprintf("%s%d", pick(d.g, oddNames), d.names), genStyle(d.g))
	}
	return fmt.Sprintf(`"n%d"`, d.names)
}

func (d *deriver) object(depth int) string {
	g := d.g
	if d.hit(14) {
		return pick(g, []string{`[]`, `"a"`, `1`, `null`, `true`, ``, `{`, `[{"a":["b"]}]`})
	}
	var parts []string
	for i, n := 0, g.R(1, 3); i < n; i++ {
		nm := d.name()
		if d.hit(20) {
			nm = pick(g, []string{`a`, `1`, `'a'`, `null`, `{}`, ``, `"a`})
		}
		sep := ":"
		if d.hit(24) {
			sep = pick(g, []string{"", "=", ",", "::"})
		}
		var val string
		switch {
		case depth < 3 && g.P(1, 3):
			val = d.object(depth + 1)
		default:
			val = d.list()
		}
		parts = append(parts, nm+sep+val)
	}
	s := strings.Join(parts, ",")
	if d.hit(24) {
		s += ","
	}
	if d.hit(30) {
		return "{" + s
	}
	return "{" + s + "}"
}

func (d *deriver) list() string {
	g := d.g
	if d.hit(6) {
		return pick(g, []string{`"a"`, `1`, `true`, `false`, `null`, `-0.5e7`, ``})
	}
	var parts []string
	excl := false
	switch g.W(8, 2, 2, 1) {
	case 0:
		for i, n := 0, g.W(1, 8, 6, 3); i < n; i++ {
			parts = append(parts, d.elem())
		}
	case 1:
		parts, excl = []string{`{"exists":` + d.or(pick(g, []string{"true", "false"}), `"true"`, `1`, `null`, `[true]`, `{}`, ``) + d.extra() + `}`}, true
	case 2:
		parts, excl = []string{`{"anything-but":` + d.abList() + d.extra() + `}`}, true
	case 3:
		rx := &rxGen{alpha: []rune("abc"), depth: 2, maxSize: 8, counts: 3}
		s := rxRender(g, rx.gen(g), 0)
		if d.hit(3) {
			s = mutateRx(g, s)
		}
		parts = []string{`{"regexp":` + d.or(g.jstr(s, style{}), `1`, `true`, `null`, `["a"]`, `{}`) + d.extra() + `}`}
	}
	if excl && d.hit(3) {
		parts = append(parts, d.elem())
		if g.B() {
			parts[0], parts[1] = parts[1], parts[0]
		}
		if g.P(1, 3) {
			parts[1] = parts[0]
		}
	}
	s := strings.Join(parts, ",")
	if len(parts) > 0 && d.hit(24) {
		s += pick(g, []string{",", ",,1", " 1", "]"})
	}
	if d.hit(30) {
		return "[" + s
	}
	return "[" + s + "]"
}

func (d *deriver) or(good string, bad ...string) string {
	if d.hit(3) {
		return pick(d.g, bad)
	}
	return good
}

// extra members in an extended pattern
func (d *deriver) extra() string {
	if d.hit(10) {
		return pick(d.g, []string{`,"a":"b"`, `,"prefix":"a"`, `,"exists":true`, `,`, ` "x"`, `:"x"`, `,"a":{}`, `]`})
	}
	return ""
}

func (d *deriver) abList() string {
	g := d.g
	if d.hit(3) {
		return pick(g, []string{`[]`, `"a"`, `1`, `null`, `["a",1]`, `[["a"]]`, `[true]`, `[null]`, `{"prefix":"a"}`, `["a",{"prefix":"b"}]`, `["a"`, `["a",]`, `{}`})
	}
	var parts []string
	for i, n := 0, g.R(1, 4); i < n; i++ {
		parts = append(parts, d.string(nil))
	}
	return "[" + strings.Join(parts, ",") + "]"
}

func (d *deriver) string(alpha []rune) string {
	g := d.g
	if alpha == nil {
		alpha = pick(g, alphaSets)
	}
	s := g.jstr(genStr(g, alpha, 6), genStyle(g))
	if d.hit(12) {
		i := g.N(len(s) + 1)
		s = s[:i] + pick(g, []string{`"`, `\`, `\x`, `\u12`, "\n", "\x00", "\x1f", "\xff", "\xc3(", "\xf8\x88\x80\x80\x80", `\U0041`, `\'`, `\0`}) + s[i:]
	}
	return s
}

func (d *deriver) elem() string {
	g := d.g
	str := func(name string, alpha []rune) string {
		return `{"` + name + `":` + d.or(d.string(alpha), `1`, `true`, `null`, `["a"]`, `{}`, `{"prefix":"a"}`, ``) + d.extra() + `}`
	}
	switch g.W(6, 4, 3, 3, 3, 4, 3, 2) {
	case 0:
		return d.string(nil)
	case 1:
		return d.or(numText(g, genFloat(g, nil)), `01`, `+1`, `.5`, `1.`, `1e`, `-`, `0x10`, `1_000`, `NaN`, `Infinity`, `1.e5`, `--1`, `1e5.5`, `00`, `-01`)
	case 2:
		return d.or(pick(g, []string{"true", "false", "null"}), "True", "nul", "NULL", "truefalse", "undefined", "nil")
	case 3:
		return str("prefix", nil)
	case 4:
		return str("equals-ignore-case", nil)
	case 5:
		s := genGlob(g, pick(g, [][]rune{{'a', '*', '\\', 'b'}, {'a', 'b'}, {'*', '\\'}}), "wildcard")
		if d.hit(2) {
			i := g.N(len(s) + 1)
			s = s[:i] + pick(g, []string{"**", `\`, `\a`, `\"`, `*\`, `\\\`, "*", `\n`}) + s[i:]
		}
		return `{"wildcard":` + d.or(g.jstr(s, genStyle(g)), `1`, `true`, `null`, `["a"]`, `{}`) + d.extra() + `}`
	case 6:
		s := genGlob(g, []rune{'a', '\\', 'b'}, "shellstyle")
		if d.hit(2) {
			i := g.N(len(s) + 1)
			s = s[:i] + pick(g, []string{"**", "***", "*"}) + s[i:]
		}
		return `{"shellstyle":` + d.or(g.jstr(s, genStyle(g)), `1`, `true`, `null`, `["a"]`, `{}`) + d.extra() + `}`
	}
	if d.hit(1) {
		return pick(g, []string{`{}`, `[]`, `["a"]`, `{"nonesuch":"a"}`, `{"Prefix":"a"}`, `{"a":["b"]}`, `{"numeric":["=",1]}`, `{"":""}`, `{"exists ":true}`, `{"prefix":"a"`, `{prefix:"a"}`, `{"suffix":"a"}`, `{1:2}`})
	}
	return `"z"`
}

func genPatSoup(g *G, idx int) any {
	c := &LCase{}
	for i, k := 0, g.R(1, 5); i < k; i++ {
		var b strings.Builder
		if g.P(2, 3) {
			b.WriteString(`{"a":[`)
		}
		for j, n := 0, g.R(0, 14); j < n; j++ {
			if g.P(1, 12) {
				b.WriteByte(byte(g.N(256)))
			} else {
				b.WriteString(pick(g, patTokens))
			}
		}
		if g.P(1, 2) {
			b.WriteString(`]}`)
		}
		c.Texts = append(c.Texts, []byte(b.String()))
	}
	return c
}

// ---- C11 ----

// XCase: regexps.
type XCase struct {
	RX []string `json:"rx"`
}

func checkX(c any, r *Rec) error {
	m := c.(*XCase)
	g := replayG(nil)
	for _, s := range m.RX {
		if !utf8.ValidString(s) {
			continue
		}
		t, cost := judgeRegexp(s)
		if cost > rxCostLimit {
			r.Label("too costly, not tried")
			continue
		}
		text := `{"a":[{"regexp":` + g.jstr(s, style{}) + `}]}`
		q := mustNew()
		err := q.AddPattern("x", text)
		switch t {
		case Yes:
			r.Label("must be accepted")
			r.NonTrivial()
			if err != nil {
				return fmt.Errorf("regexp %q: unexpected error %v", s, err)
			}
		case No:
			r.Label("must be refused")
			if err == nil {
				return fmt.Errorf("regexp %q is accepted, but it is not derivable from the grammar", s)
			}
		default:
			r.Label("left open")
		}
	}
	return nil
}

var rxTokens = []string{"(", ")", "[", "]", "{", "}", "|", "*", "+", "?", ".", "~", "^", "-", "~p{L}", "~P{Zs}", "~p{", "~p{Lx}", "~p{}", "~pL", "~q", "~~", "~.", "~-", "~n", "{2}", "{2,}", "{,2}", "{1,3}", "{3,1}", "{0}", "{0,0}", "{a}", "{1,2,3}", "{99}", "{02}", "{000003}", "{00,01}", "{0000}", "{100}", "{001001}", "{4294967297}", "{18446744073709551617}", "{0,18446744073709551618}", "{2,00}", "{٣}", "{1_0}", "{0x1}", "{+1}", "{1.0}", "{1e0}", "{1001}", "{ 1}", "{-1}", "{1,",
	"[a-c]", "[c-a]", "[^a]", "[^]", "[]", "[-a]", "[a-]", "[a-b-c]", "[--a]", "[a--]", "[^-a]", "[~]]", "[a~-z]", "[~p{Lu}]", "[~p{Lu}-z]", "[a-~p{Lu}]", "[[a]]", "[a&&b]", "[~d]", "()", "(|)", "(a|)", "(|a)", "(?:a)", "(?i)", "a", "b", "é", "\\", "/", "$", "\U0001f600", "~u0041", "~x41", "~b", "~d", "~1", "~", "&", ",", "~^", "~[", "~{", "~|", "[.]", "[*]", "[~~]", "[a\\]", "[\\-~]]", " "}

func mutateRx(g *G, s string) string {
	rs := []rune(s)
	switch g.N(5) {
	case 0:
		i := g.N(len(rs) + 1)
		return string(rs[:i]) + pick(g, rxTokens) + string(rs[i:])
	case 1:
		if len(rs) > 0 {
			i := g.N(len(rs))
			return string(rs[:i]) + string(rs[i+1:])
		}
	case 2:
		if len(rs) > 0 {
			i := g.N(len(rs))
			return string(rs[:i]) + pick(g, rxTokens) + string(rs[i+1:])
		}
	case 3:
		return string(rs[:g.N(len(rs)+1)])
	case 4:
		if len(rs) > 1 {
			i := g.N(len(rs) - 1)
			rs[i], rs[i+1] = rs[i+1], rs[i]
		}
		return string(rs)
	}
	return s + pick(g, rxTokens)
}

func genRxMutants(g *G, idx int) any {
	x := rxGen{alpha: pick(g, [][]rune{[]rune("abc"), []rune("a-^~"), []rune("(){}[]|*+?.~"), []rune("\\\n\t~"), []rune("aé\U0001f600"), []rune("0123,")}), depth: 3, maxSize: 30, counts: 4, neg: g.P(1, 5), props: g.P(1, 12)}
	c := &XCase{}
	for i, k := 0, g.R(1, 3); i < k; i++ {
		s := rxRender(g, x.gen(g), 0)
		c.RX = append(c.RX, s)
		for j, l := 0, g.R(1, 8); j < l; j++ {
			t := mutateRx(g, s)
			if g.P(1, 4) {
				t = mutateRx(g, t)
			}
			c.RX = append(c.RX, t)
		}
	}
	return c
}

func genRxSoup(g *G, idx int) any {
	c := &XCase{}
	for i, k := 0, g.R(1, 8); i < k; i++ {
		var b strings.Builder
		for j, n := 0, g.R(1, 7); j < n; j++ {
			b.WriteString(pick(g, rxTokens))
		}
		c.RX = append(c.RX, b.String())
	}
	return c
}

// every sequence of up to n tokens
var rxShortTokens = []string{"a", "(", ")", "[", "]", "{", "}", "|", "*", "+", "?", ".", "~", "^", "-", ",", "1", "p"}

func genRxShort(g *G, idx int) any {
	const perCase = 200
	c := &XCase{}
	n := len(rxShortTokens)
	at := idx * perCase
	total := 0
	maxLen := 4
	for l := 0; l <= maxLen; l++ {
		pow := 1
		for k := 0; k < l; k++ {
			pow *= n
		}
		for at < total+pow && len(c.RX) < perCase {
			v := at - total
			var b strings.Builder
			for k := 0; k < l; k++ {
				b.WriteString(rxShortTokens[v%n])
				v /= n
			}
			c.RX = append(c.RX, b.String())
			at++
		}
		total += pow
	}
	if len(c.RX) == 0 {
		return nil
	}
	return c
}

func init() {
	newL := func() any { return &LCase{} }
	newX := func() any { return &XCase{} }
	register(&Prop{ID: "C10", Rule: "non-trivial: a text that must be accepted, or one that must be refused although it is JSON",
		Subs: []*Sub{
			{Name: "grammar", Quick: 60000, Thorough: 2000000, New: newL, Check: checkL, Gen: genPatGrammar, Rule: "derivations of the pattern grammar, half of them with one rule broken at a random place"},
			{Name: "mutants", Quick: 25000, Thorough: 800000, New: newL, Check: checkL, Gen: genPatMutants, Rule: "valid patterns and byte- and token-level mutations of them"},
			{Name: "trailing", New: newL, Check: checkTrailing, Gen: func(g *G, idx int) any { return nil }, Rule: "only for the recorded finding"},
			{Name: "soup", Quick: 25000, Thorough: 800000, New: newL, Check: checkL, Gen: genPatSoup, Rule: "random tokens and bytes"},
		}})
	register(&Prop{ID: "C11", Rule: "non-trivial: at least one expression that must be accepted",
		Subs: []*Sub{
			{Name: "short", Quick: 1 << 20, Thorough: 1 << 20, New: newX, Check: checkX, Gen: genRxShort, Rule: "enumerated: every text of up to 4 characters over a ( ) [ ] { } | * + ? . ~ ^ - , 1 p"},
			{Name: "mutants", Quick: 6000, Thorough: 500000, New: newX, Check: checkX, Gen: genRxMutants, Rule: "expressions rendered from a syntax tree, and mutations of them"},
			{Name: "soup", Quick: 8000, Thorough: 500000, New: newX, Check: checkX, Gen: genRxSoup, Rule: "random sequences of whole and broken regexp constructs"},
		}})
}
