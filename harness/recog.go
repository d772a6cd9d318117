package main

// Independent recognisers: RFC 8259 texts, the pattern language of PATTERNS.md, and the regexp
// grammar of RFC 9485 with ~ as the escape character.

import (
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// ---- JSON ----

type jparser struct {
	b         []byte
	i         int
	depth     int
	maxDepth  int
	surrogate bool // some string has an unpaired surrogate escape
	dup       bool // some object has a repeated name
	badUTF8   bool // some string holds bytes that aren't UTF-8
	outside   bool // bytes that aren't UTF-8 elsewhere
	hugeNum   bool // a number beyond the float64 range
}

func (p *jparser) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\n' || p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *jparser) str() (string, bool) {
	if p.i >= len(p.b) || p.b[p.i] != '"' {
		return "", false
	}
	p.i++
	var out []byte
	hex := func() (rune, bool) {
		if p.i+4 > len(p.b) {
			return 0, false
		}
		v := rune(0)
		for k := 0; k < 4; k++ {
			c := p.b[p.i+k]
			switch {
			case c >= '0' && c <= '9':
				v = v<<4 | rune(c-'0')
			case c >= 'a' && c <= 'f':
				v = v<<4 | rune(c-'a'+10)
			case c >= 'A' && c <= 'F':
				v = v<<4 | rune(c-'A'+10)
			default:
				return 0, false
			}
		}
		p.i += 4
		return v, true
	}
	for {
		if p.i >= len(p.b) {
			return "", false
		}
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			if !utf8.Valid(out) {
				p.badUTF8 = true
			}
			return string(out), true
		case c < 0x20:
			return "", false
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				return "", false
			}
			c = p.b[p.i]
			p.i++
			switch c {
			case '"', '\\', '/':
				out = append(out, c)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				v, ok := hex()
				if !ok {
					return "", false
				}
				if utf16.IsSurrogate(v) {
					save := p.i
					if p.i+1 < len(p.b) && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
						p.i += 2
						w, ok := hex()
						if !ok {
							return "", false
						}
						if d := utf16.DecodeRune(v, w); d != 0xfffd {
							out = utf8.AppendRune(out, d)
							continue
						}
						p.i = save
					}
					p.surrogate = true
					v = 0xfffd
				}
				out = utf8.AppendRune(out, v)
			default:
				return "", false
			}
		default:
			out = append(out, c)
			p.i++
		}
	}
}

func (p *jparser) value() (*Val, bool) {
	p.ws()
	if p.i >= len(p.b) {
		return nil, false
	}
	switch c := p.b[p.i]; {
	case c == '{':
		p.i++
		p.depth++
		p.maxDepth = max(p.maxDepth, p.depth)
		defer func() { p.depth-- }()
		v := &Val{K: "o"}
		seen := map[string]bool{}
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == '}' {
			p.i++
			return v, true
		}
		for {
			p.ws()
			n, ok := p.str()
			if !ok {
				return nil, false
			}
			if seen[n] {
				p.dup = true
			}
			seen[n] = true
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != ':' {
				return nil, false
			}
			p.i++
			x, ok := p.value()
			if !ok {
				return nil, false
			}
			v.M = append(v.M, Member{n, x})
			p.ws()
			if p.i >= len(p.b) {
				return nil, false
			}
			p.i++
			switch p.b[p.i-1] {
			case '}':
				return v, true
			case ',':
			default:
				return nil, false
			}
		}
	case c == '[':
		p.i++
		p.depth++
		p.maxDepth = max(p.maxDepth, p.depth)
		defer func() { p.depth-- }()
		v := &Val{K: "a"}
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			return v, true
		}
		for {
			x, ok := p.value()
			if !ok {
				return nil, false
			}
			v.E = append(v.E, x)
			p.ws()
			if p.i >= len(p.b) {
				return nil, false
			}
			p.i++
			switch p.b[p.i-1] {
			case ']':
				return v, true
			case ',':
			default:
				return nil, false
			}
		}
	case c == '"':
		s, ok := p.str()
		return vStr(s), ok
	case c == '-' || (c >= '0' && c <= '9'):
		st := p.i
		for p.i < len(p.b) && strings.IndexByte("+-0123456789.eE", p.b[p.i]) >= 0 {
			p.i++
		}
		n := string(p.b[st:p.i])
		if !validJSONNumber(n) {
			return nil, false
		}
		if f, err := strconv.ParseFloat(n, 64); err != nil || math.IsInf(f, 0) {
			p.hugeNum = true
		}
		return vNum(n), true
	}
	for _, l := range [][2]string{{"true", "t"}, {"false", "f"}, {"null", "z"}} {
		if strings.HasPrefix(string(p.b[p.i:min(len(p.b), p.i+5)]), l[0]) {
			p.i += len(l[0])
			return &Val{K: l[1]}, true
		}
	}
	return nil, false
}

// parseJSON reads one value with white space around it; rest is what follows it.
func parseJSON(b []byte) (v *Val, p *jparser, rest []byte, ok bool) {
	p = &jparser{b: b}
	v, ok = p.value()
	if ok {
		p.ws()
		rest = b[p.i:]
	}
	return
}

// ---- patterns ----

type patVerdict struct {
	t        Tri
	why      string
	trailing bool // the text goes on after a well-formed pattern
	cost     int  // estimate of the size of its automata
}

func judgePattern(text []byte) patVerdict {
	if !utf8.Valid(text) {
		return patVerdict{t: No, why: "not UTF-8"}
	}
	v, p, rest, ok := parseJSON(text)
	if !ok {
		return patVerdict{t: No, why: "not JSON"}
	}
	if v.K != "o" {
		return patVerdict{t: No, why: "not an object"}
	}
	pv := patVerdict{t: Yes}
	unknown := func(why string) {
		if pv.t == Yes {
			pv.t, pv.why = Unknown, why
		}
	}
	no := func(why string) {
		if pv.t != No {
			pv.t, pv.why = No, why
		}
	}
	var obj func(v *Val)
	product := 1
	leafs := func(list *Val) {
		excl := ""
		// the values of different fields are combined (a recorded finding): a limit for the combinations tried
		product = min(1<<30, product*max(1, len(list.E)))
		for _, e := range list.E {
			switch e.K {
			case "a":
				no("array within a value list")
			case "o":
				if len(e.M) != 1 {
					no("extended pattern without exactly one member")
					continue
				}
				n, x := e.M[0].N, e.M[0].V
				switch n {
				case "exists":
					if x.K != "t" && x.K != "f" {
						no("exists with something else than true or false")
					}
					excl = n
				case "anything-but":
					excl = n
					if x.K != "a" {
						no("anything-but without a list")
						break
					}
					if len(x.E) == 0 {
						no("empty anything-but")
					}
					for _, y := range x.E {
						if y.K != "s" {
							no("anything-but with something else than strings")
						}
						pv.cost += len(y.S)
					}
				case "prefix", "equals-ignore-case", "shellstyle", "wildcard", "regexp":
					if x.K != "s" {
						no(n + " with something else than a string")
						break
					}
					pv.cost += len(x.S)
					switch n {
					case "shellstyle":
						if strings.Contains(x.S, "**") {
							no("adjacent stars")
						}
					case "wildcard":
						if w := wildcardVerdict(x.S); w != "" {
							no(w)
						}
					case "regexp":
						t, cost := judgeRegexp(x.S)
						pv.cost += cost
						if t == No {
							no("bad regexp")
						} else if t == Unknown {
							unknown("regexp in a grey area")
						}
						if len(list.E) > 1 {
							unknown("regexp combined with other values")
						}
					}
				default:
					no("unknown pattern type")
				}
			case "s":
				pv.cost += len(e.S)
			}
		}
		if excl != "" && len(list.E) > 1 {
			no(excl + " combined with other values")
		}
	}
	obj = func(v *Val) {
		if len(v.M) == 0 {
			unknown("empty object")
		}
		for _, m := range v.M {
			switch m.V.K {
			case "o":
				obj(m.V)
			case "a":
				leafs(m.V)
			default:
				no("leaf that is not in an array")
			}
		}
	}
	obj(v)
	pv.cost += product / 16
	if p.dup {
		unknown("repeated name")
		// a repeated name within an extended pattern has more than one member, which is refused above
	}
	if p.surrogate {
		unknown("unpaired surrogate")
	}
	if p.hugeNum {
		unknown("number out of range")
	}
	if len(rest) > 0 {
		pv.trailing = true
		no("something after the pattern")
	}
	return pv
}

func wildcardVerdict(s string) string {
	star := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			if i+1 >= len(s) || (s[i+1] != '*' && s[i+1] != '\\') {
				return "bad wildcard escape"
			}
			i++
			star = false
		case '*':
			if star {
				return "adjacent stars"
			}
			star = true
		default:
			star = false
		}
	}
	return ""
}

// ---- regexps ----

type rxParser struct {
	s    []rune
	i    int
	grey bool
	bad  bool
	node int
}

// judgeRegexp decides whether s is derivable from the grammar of RFC 9485 (with ~ for \), and
// estimates the size of the automaton. Unknown marks what documentation and grammar leave open.
func judgeRegexp(s string) (Tri, int) {
	p := &rxParser{s: []rune(s)}
	cost := p.alt(0)
	if p.bad || p.i < len(p.s) {
		return No, cost
	}
	if p.grey {
		return Unknown, cost
	}
	return Yes, cost
}

func (p *rxParser) peek() rune {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return -1
}

func (p *rxParser) alt(depth int) int {
	if depth > 200 {
		p.grey = true
	}
	cost := p.branch(depth)
	for !p.bad && p.peek() == '|' {
		p.i++
		cost += p.branch(depth)
	}
	return cost + 1
}

const rxMax = 1 << 28

func (p *rxParser) branch(depth int) int {
	cost := 0
	for !p.bad && p.i < len(p.s) {
		switch p.peek() {
		case '|', ')':
			return cost
		}
		c := p.atom(depth)
		if p.bad {
			return cost
		}
		c *= p.quant()
		cost = min(rxMax, cost+min(rxMax, c))
	}
	return cost
}

func (p *rxParser) num() (int, bool) {
	st := p.i
	n := 0
	for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
		n = n*10 + int(p.s[p.i]-'0')
		if n > 1<<20 {
			n = 1 << 20
		}
		p.i++
	}
	return n, p.i > st
}

func (p *rxParser) quant() int {
	switch p.peek() {
	case '*', '+', '?':
		p.i++
		return 1
	case '{':
		p.i++
		lo, ok := p.num()
		if !ok {
			p.bad = true
			return 1
		}
		hi := lo
		if p.peek() == ',' {
			p.i++
			h, ok := p.num()
			if ok {
				hi = h
				if hi < lo {
					p.bad = true
				}
			} else {
				hi = lo + 1
			}
		}
		if p.peek() != '}' {
			p.bad = true
			return 1
		}
		p.i++
		m := max(lo, hi)
		switch {
		case m > 1000:
			p.bad = true // documented limit
		case m > 99:
			p.grey = true // beyond the documented limit, but in use
		}
		return max(1, min(m, 1000))
	}
	return 1
}

const rxEscapable = "()*+-.?[\\]^nrt{|}~"

// escape reads what follows ~ ; prop tells whether it was a category, with its cost.
func (p *rxParser) escape() (r rune, prop bool, cost int) {
	c := p.peek()
	p.i++
	switch c {
	case -1:
		p.bad = true
		return
	case 'p', 'P':
		if p.peek() != '{' {
			p.bad = true
			return
		}
		p.i++
		st := p.i
		for p.i < len(p.s) && p.s[p.i] != '}' && p.i-st < 4 {
			p.i++
		}
		name := string(p.s[st:p.i])
		if p.peek() != '}' {
			p.bad = true
			return
		}
		p.i++
		known := false
		for _, n := range propNames {
			known = known || n == name
		}
		if name == "Cs" {
			p.grey = true
		} else if !known {
			p.bad = true
		}
		return 0, true, 1000
	case 'n':
		return '\n', false, 1
	case 'r':
		return '\r', false, 1
	case 't':
		return '\t', false, 1
	}
	if !strings.ContainsRune(rxEscapable, c) {
		p.bad = true
	}
	return c, false, 1
}

func (p *rxParser) atom(depth int) int {
	c := p.peek()
	p.i++
	switch c {
	case '(':
		cost := p.alt(depth + 1)
		if p.bad || p.peek() != ')' {
			p.bad = true
			return cost
		}
		p.i++
		return cost
	case '.':
		return 3
	case '~':
		_, _, cost := p.escape()
		return cost
	case '[':
		return p.class()
	case ')', '*', '+', '?', ']', '{', '}', '|':
		p.bad = true
		return 0
	}
	return 1
}

func (p *rxParser) class() int {
	cost := 1
	if p.peek() == '^' {
		p.i++
		cost = 300
	}
	n := 0
	if p.peek() == '-' {
		p.i++
		n++
	}
	for {
		switch p.peek() {
		case -1:
			p.bad = true
			return cost
		case ']':
			p.i++
			if n == 0 {
				p.bad = true
			}
			return cost
		case '-':
			// only as the last one
			p.i++
			if p.peek() != ']' {
				p.bad = true
				return cost
			}
			n++
			continue
		case '[':
			p.bad = true
			return cost
		}
		lo, isProp, c := p.classChar()
		cost += c
		n++
		if p.bad {
			return cost
		}
		if p.peek() == '-' && p.i+1 < len(p.s) && p.s[p.i+1] != ']' {
			if isProp {
				p.bad = true
				return cost
			}
			p.i++
			if c := p.peek(); c == '-' || c == '[' {
				p.bad = true
				return cost
			}
			hi, isProp, _ := p.classChar()
			if isProp {
				p.bad = true
			}
			if p.bad {
				return cost
			}
			if hi < lo {
				p.bad = true
			}
			cost += min(600, int(hi-lo)/32)
		}
	}
}

func (p *rxParser) classChar() (rune, bool, int) {
	c := p.peek()
	p.i++
	if c == '~' {
		return p.escape()
	}
	return c, false, 1
}
