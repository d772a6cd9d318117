package main

// C25: inputs made to be expensive. A case is a family and a few numbers and strings, from which the patterns
// and events are built, so that replay files stay small.

import (
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	quamina "quamina.net/go/quamina/v2"
)

type ACase struct {
	Fam string   `json:"fam"`
	N   []int    `json:"n,omitempty"`
	S   []string `json:"s,omitempty"`
	B   [][]byte `json:"b,omitempty"`
	Del bool     `json:"del,omitempty"`
}

// aBuilt is what a case expands to. Want, when not nil, is the set of patterns that match an event.
type aEvent struct {
	text []byte
	want map[int]bool // nil: not judged
	bad  bool         // an error is expected
	any  bool         // error or not
}

type aBuilt struct {
	pats   []string
	mayErr bool
	evs    []aEvent
}

func (b *aBuilt) ev(s string)    { b.evs = append(b.evs, aEvent{text: []byte(s)}) }
func (b *aBuilt) evAny(s string) { b.evs = append(b.evs, aEvent{text: []byte(s), any: true}) }
func (b *aBuilt) evBad(s string) { b.evs = append(b.evs, aEvent{text: []byte(s), bad: true}) }
func (b *aBuilt) evWant(s string, is ...int) {
	w := map[int]bool{}
	for _, i := range is {
		w[i] = true
	}
	b.evs = append(b.evs, aEvent{text: []byte(s), want: w})
}

func js(s string) string { return replayG(nil).jstr(s, style{}) }

func ext(kind, s string) string { return `{"a":[{"` + kind + `":` + js(s) + `}]}` }
func strEvent(s string) string  { return `{"a":` + js(s) + `}` }

func rep(s string, n int) string { return strings.Repeat(s, n) }

type aFam struct {
	name   string
	weight int
	gen    func(g *G, c *ACase)
	build  func(c *ACase, b *aBuilt)
}

var rxAtoms = []string{"a", "b", ".", "[ab]", "[a-c]", "(a|b)", "(a|ab)", "(a|a)", "(ab|a)", "(|a)", "a?", "a*", "[^a]", "(a*)", "(a+b?)", "~.", "é", "(.|a)", "[~p{Lu}a]"}
var rxQuants = []string{"", "*", "+", "?", "{2}", "{0,3}", "{1,}", "{2,5}"}

// genNested draws a regexp in which quantifiers are nested.
func genNested(g *G, depth int) string {
	var b strings.Builder
	for i, n := 0, g.R(1, 3); i < n; i++ {
		if depth > 0 && g.P(2, 3) {
			b.WriteString("(" + genNested(g, depth-1) + ")")
		} else {
			b.WriteString(pick(g, rxAtoms))
			continue
		}
		b.WriteString(pick(g, rxQuants))
	}
	if g.P(1, 4) {
		b.WriteString("|" + pick(g, rxAtoms))
	}
	return b.String()
}

var aFams = []aFam{
	{"nested quantifiers", 6, func(g *G, c *ACase) {
		for len(c.S) < 1 {
			s := genNested(g, g.R(1, 4))
			if _, cost := judgeRegexp(s); cost < 600 {
				c.S = append(c.S, s)
			}
		}
		c.N = []int{g.R(1, 3000)}
	}, func(c *ACase, b *aBuilt) {
		b.pats = append(b.pats, ext("regexp", c.S[0]))
		n := c.N[0]
		for _, s := range []string{rep("a", n), rep("ab", n/2) + "c", rep("a", n) + "!", rep("b", n), rep("aab", n/3), rep("é", n)} {
			b.ev(strEvent(s))
		}
	}},
	{"powers", 4, func(g *G, c *ACase) {
		c.S = []string{pick(g, []string{"a*", "a?", "a+", "(a|b)*", "(a*)*", ".*", ".+", ".", "(a|.)", "(.?a?)*", "(a|aa)+", "[ab]?", "(a?b?)"})}
		c.N = []int{g.R(1, 40), g.R(1, 2000)}
	}, func(c *ACase, b *aBuilt) {
		k, n := c.N[0], c.N[1]
		b.pats = append(b.pats, ext("regexp", "("+c.S[0]+"){"+fmt.Sprint(k)+"}"), ext("regexp", rep(c.S[0], k)+"x"), ext("regexp", "("+rep(c.S[0], min(k, 8))+")*"))
		for _, s := range []string{rep("a", n), rep("a", n) + "x", rep("ab", n/2), rep("ab", n/2) + "x", rep("a", k), ""} {
			b.ev(strEvent(s))
		}
	}},
	{"towers", 3, func(g *G, c *ACase) {
		c.S = []string{pick(g, []string{"a", ".", "a|b", "ab?", "a|aa", ""}), pick(g, []string{"*", "+", "?"}), pick(g, []string{"*", "+", "?"})}
		c.N = []int{g.R(1, 14), g.R(1, 2000)}
	}, func(c *ACase, b *aBuilt) {
		s := c.S[0]
		for i := 0; i < c.N[0]; i++ {
			s = "(" + s + ")" + c.S[1+i%2]
		}
		b.pats = append(b.pats, ext("regexp", s))
		for _, e := range []string{rep("a", c.N[1]), rep("a", c.N[1]) + "!", rep("ab", c.N[1]/2)} {
			b.ev(strEvent(e))
		}
	}},
	{"categories", 3, func(g *G, c *ACase) {
		for i, n := 0, g.R(1, 12); i < n; i++ {
			p := pick(g, propNames)
			c.S = append(c.S, pick(g, []string{"~p{" + p + "}", "~P{" + p + "}", "~p{" + p + "}*", "[~p{" + p + "}a]", "[^~p{" + p + "}]", "~p{" + p + "}?"}))
		}
		c.N = []int{g.R(1, 1000), g.R(1, 3)}
	}, func(c *ACase, b *aBuilt) {
		for i := 0; i < c.N[1]; i++ {
			b.pats = append(b.pats, ext("regexp", strings.Join(c.S, "")))
			c.S = append(c.S[1:], c.S[0])
		}
		for _, s := range []string{rep("a", c.N[0]), rep("A1 ", c.N[0]/3), rep("é中", c.N[0]/2), rep("\U0001f600", c.N[0]/2)} {
			b.ev(strEvent(s))
		}
	}},
	{"big classes", 2, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 300), g.R(0, 0xfff), g.N(2), g.R(1, 3)}
	}, func(c *ACase, b *aBuilt) {
		rng := rand.New(rand.NewPCG(uint64(c.N[1]), 7))
		var s strings.Builder
		s.WriteString("[")
		if c.N[2] == 1 {
			s.WriteString("^")
		}
		for i := 0; i < c.N[0]; i++ {
			lo := rune(0xe000 + rng.IntN(0x10ff))
			s.WriteString(string(lo))
			if rng.IntN(3) == 0 {
				s.WriteString("-" + string(lo+rune(rng.IntN(300))))
			}
		}
		s.WriteString("]")
		b.pats = append(b.pats, ext("regexp", rep(s.String(), c.N[3])), ext("regexp", s.String()+"+"))
		b.ev(strEvent(rep("a", 200)))
		b.ev(strEvent(rep(string(rune(0xe123)), 200)))
	}},
	{"alternatives", 2, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 120), g.R(1, 8), g.R(0, 0xfff), g.R(1, 1000)}
	}, func(c *ACase, b *aBuilt) {
		rng := rand.New(rand.NewPCG(uint64(c.N[2]), 7))
		var alts []string
		for i := 0; i < c.N[0]; i++ {
			s := ""
			for j := 0; j <= rng.IntN(c.N[1]); j++ {
				s += string(rune('a' + rng.IntN(3)))
			}
			alts = append(alts, s)
		}
		b.pats = append(b.pats, ext("regexp", strings.Join(alts, "|")), ext("regexp", "("+strings.Join(alts, "|")+")*"))
		for _, s := range []string{alts[0], rep(alts[0], c.N[3]/10), rep("abc", c.N[3]/3), rep("a", c.N[3])} {
			b.ev(strEvent(s))
		}
	}},
	{"counts", 2, func(g *G, c *ACase) {
		c.N = []int{g.R(0, 100), g.R(0, 100), g.R(1, 4)}
		c.S = []string{pick(g, []string{"a", "ab", "(a|b)", ".", "[a-c]", "(ab?)", "[^x]", "~p{Lu}"})}
	}, func(c *ACase, b *aBuilt) {
		lo, hi := c.N[0], c.N[0]+c.N[1]
		at := c.S[0]
		if at == "[^x]" || at == "~p{Lu}" {
			// an automaton of a few hundred KB each
			lo, hi = c.N[0]/5, c.N[0]/5+c.N[1]/5
		}
		b.pats = append(b.pats, ext("regexp", fmt.Sprintf("(%s){%d,%d}", at, lo, hi)), ext("regexp", fmt.Sprintf("(%s){%d,}", at, lo)), ext("regexp", fmt.Sprintf("((%s){%d}){%d}", at, min(lo, 12), c.N[2])))
		for _, n := range []int{0, 1, lo - 1, lo, hi, hi + 1, 1000} {
			if n >= 0 {
				b.ev(strEvent(rep("a", n)))
				b.ev(strEvent(rep("ab", n)))
			}
		}
	}},
	{"many wildcards", 4, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 60), g.R(1, 3), g.R(0, 0xfff), g.R(1, 1500), g.R(2, 4)}
		c.S = []string{pick(g, []string{"wildcard", "shellstyle"})}
	}, func(c *ACase, b *aBuilt) {
		rng := rand.New(rand.NewPCG(uint64(c.N[2]), 7))
		w := func(k int) string {
			s := ""
			for j := 0; j < k; j++ {
				s += string(rune('a' + rng.IntN(c.N[4])))
			}
			return s
		}
		var globs []string
		for i := 0; i < c.N[0]; i++ {
			s := ""
			for j := 0; j < c.N[1]; j++ {
				s += w(rng.IntN(3)+1) + "*"
			}
			if rng.IntN(3) == 0 {
				s = "*" + s
			}
			s += w(1 + rng.IntN(2))
			globs = append(globs, s)
			b.pats = append(b.pats, ext(c.S[0], s))
		}
		for _, s := range []string{w(c.N[3]), rep("a", c.N[3]), rep("ab", c.N[3]/2), w(3)} {
			var is []int
			for i, gl := range globs {
				if globMatch(shellToks(gl), []rune(s)) {
					is = append(is, i)
				}
			}
			b.evWant(strEvent(s), is...)
		}
	}},
	{"many stars", 3, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 100), g.R(1, 3000), g.R(1, 6)}
		c.S = []string{pick(g, []string{"wildcard", "shellstyle"}), pick(g, []string{"a", "ab", "aa", "é", "aab"})}
	}, func(c *ACase, b *aBuilt) {
		var globs []string
		for i := 0; i < c.N[2]; i++ {
			s := "*" + rep(c.S[1]+"*", c.N[0]+i) + "x"
			globs = append(globs, s)
			b.pats = append(b.pats, ext(c.S[0], s))
		}
		for _, s := range []string{rep("a", c.N[1]), rep("ab", c.N[1]/2) + "x", rep(c.S[1], c.N[0]+1) + "x", rep("éa", c.N[1]/2) + "x"} {
			var is []int
			for i, gl := range globs {
				if globMatch(shellToks(gl), []rune(s)) {
					is = append(is, i)
				}
			}
			b.evWant(strEvent(s), is...)
		}
	}},
	{"many values", 4, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 1500), g.R(1, 12), g.R(0, 0xfff), g.R(2, 26)}
		c.S = []string{pick(g, []string{"s", "prefix", "equals-ignore-case", "n", "mixed"})}
	}, func(c *ACase, b *aBuilt) {
		rng := rand.New(rand.NewPCG(uint64(c.N[2]), 7))
		word := func() string {
			s := ""
			for j := 0; j <= rng.IntN(c.N[1]); j++ {
				s += string(rune('a' + rng.IntN(c.N[3])))
			}
			return s
		}
		type pv struct{ kind, s string }
		var vals []pv
		n := c.N[0]
		for i := 0; i < n; i++ {
			k := c.S[0]
			if k == "mixed" {
				k = []string{"s", "prefix", "n", "equals-ignore-case", "s", "s"}[rng.IntN(6)]
			}
			if (k == "equals-ignore-case" || c.S[0] == "mixed") && i > 300 {
				break
			}
			v := pv{k, word()}
			if k == "n" {
				v.s = fmt.Sprint(rng.IntN(5000))
			}
			vals = append(vals, v)
			switch k {
			case "s":
				b.pats = append(b.pats, `{"a":[`+js(v.s)+`]}`)
			case "n":
				b.pats = append(b.pats, `{"a":[`+v.s+`]}`)
			default:
				b.pats = append(b.pats, ext(k, v.s))
			}
		}
		try := func(s string) {
			var is []int
			for i, v := range vals {
				if v.kind == "s" && v.s == s || v.kind == "prefix" && strings.HasPrefix(s, v.s) || v.kind == "equals-ignore-case" && strings.EqualFold(s, v.s) {
					is = append(is, i)
				}
			}
			b.evWant(strEvent(s), is...)
		}
		for i := 0; i < 12; i++ {
			v := vals[rng.IntN(len(vals))]
			if v.kind == "n" {
				var is []int
				for i, w := range vals {
					if w.kind == "n" && w.s == v.s {
						is = append(is, i)
					}
				}
				b.evWant(`{"a":`+v.s+`}`, is...)
			} else {
				try(v.s)
				try(strings.ToUpper(v.s))
				try(v.s + word())
			}
		}
		try(rep("a", 3000))
	}},
	{"big lists", 2, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 1200), g.R(1, 8), g.R(0, 0xfff), g.R(1, 3)}
		c.S = []string{pick(g, []string{"anything-but", "list"})}
	}, func(c *ACase, b *aBuilt) {
		rng := rand.New(rand.NewPCG(uint64(c.N[2]), 7))
		lists := make([]map[string]bool, c.N[3])
		var words []string
		for k := range lists {
			lists[k] = map[string]bool{}
			var js1 []string
			for i := 0; i < c.N[0]; i++ {
				s := ""
				for j := 0; j <= rng.IntN(c.N[1]); j++ {
					s += string(rune('a' + rng.IntN(4)))
				}
				words = append(words, s)
				lists[k][s] = true
				js1 = append(js1, js(s))
			}
			l := "[" + strings.Join(js1, ",") + "]"
			if c.S[0] == "anything-but" {
				l = `[{"anything-but":` + l + `}]`
			}
			b.pats = append(b.pats, `{"a":`+l+`}`)
		}
		for i := 0; i < 20; i++ {
			s := words[rng.IntN(len(words))]
			if i%3 == 1 {
				s += "a"
			}
			if i%3 == 2 {
				s = s[:len(s)/2]
			}
			var is []int
			for k := range lists {
				if lists[k][s] == (c.S[0] == "list") {
					is = append(is, k)
				}
			}
			b.evWant(strEvent(s), is...)
		}
	}},
	{"deep events", 3, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 20000), g.N(5), g.N(3)}
	}, func(c *ACase, b *aBuilt) {
		n := c.N[0]
		open, shut := "[", "]"
		switch c.N[1] {
		case 1:
			open, shut = `{"a":`, "}"
		case 2:
			open, shut = `[{"b":[`, "]}]"
		case 3:
			// every leaf carries the positions in all the arrays around it
			open, shut = `[0,[`, "],1]"
			n = min(n, 300)
		case 4:
			open, shut = `{"a":[`, "]}"
		}
		b.pats = append(b.pats, `{"a":["x"]}`, `{"b":["x"],"z":[{"exists":false}]}`, `{"a":{"a":{"a":["x"]}}}`, `{"a":{"b":["x"]}}`)
		b.ev(`{"a":` + rep(open, n) + `"x"` + rep(shut, n) + `,"b":"x"}`)
		b.ev(`{"q":` + rep(open, n) + `"x"` + rep(shut, n) + `,"b":"y"}`)
		b.evAny(`{"a":` + rep(open, n))
		b.evAny(`{"a":` + rep(open, n) + `"x"` + rep(shut, n/2))
		b.evAny(`{"q":` + rep(open, n))
		b.evBad(rep("[", n))
		b.evBad(rep(`{"a":`, n))
	}},
	{"deep patterns", 2, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 1500), g.R(1, 3)}
	}, func(c *ACase, b *aBuilt) {
		n := c.N[0]
		var is []int
		for i := 0; i < c.N[1]; i++ {
			b.pats = append(b.pats, rep(`{"a":`, n)+`["x",{"prefix":"y"}]`+rep("}", n))
			is = append(is, i)
		}
		b.evWant(rep(`{"a":`, n)+`"x"`+rep("}", n), is...)
		b.evWant(rep(`{"a":`, n) + `"z"` + rep("}", n))
		b.evWant(rep(`{"a":`, n-1) + `"x"` + rep("}", n-1))
	}},
	{"hopeless patterns", 2, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 20000)}
		c.S = []string{pick(g, []string{"[", "{", `{"a":`, `{"a":[`, `[{"`, `{"a":[{"anything-but":[`, `"`, `\`, "(", "((", "[^", "~", "{1", "1", "-", "e", "a*", `{"a":["`, "*"})}
	}, func(c *ACase, b *aBuilt) {
		b.mayErr = true
		s := rep(c.S[0], c.N[0])
		b.pats = append(b.pats, s, `{"a":[`+s+`]}`, `{"a":["`+s+`"]}`)
		if c.N[0] < 400 && strings.Count(c.S[0], "(") == 0 {
			b.pats = append(b.pats, ext("regexp", s))
		}
		if c.S[0] == "(" || c.S[0] == "((" || c.S[0] == "[^" || c.S[0] == "{1" || c.S[0] == "~" {
			b.pats = append(b.pats, ext("regexp", s))
		}
		b.evAny(s)
		b.evAny(`{"a":` + s)
		b.evAny(`{"b":` + s)
		b.evAny(`{"a":"` + s)
	}},
	{"groups", 2, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 300), g.R(0, 100)}
		c.S = []string{pick(g, []string{"a", "a|b", "a*", "", "."}), pick(g, []string{"", "?", "b"})}
	}, func(c *ACase, b *aBuilt) {
		n := c.N[0]
		if c.S[1] != "" || c.S[0] == "." {
			n = min(n, 25)
		}
		b.pats = append(b.pats, ext("regexp", rep("(", n)+c.S[0]+rep(")"+c.S[1], n)))
		b.ev(strEvent(rep("a", c.N[1])))
		b.ev(strEvent("a" + rep("b", c.N[1])))
	}},
	{"long strings", 3, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 60000), g.N(3)}
		c.S = []string{pick(g, []string{"a", `\n`, `\u0041`, `\ud83d\ude00`, `\\`, `\"`, "é", "\U0001f600", `\u00e9`, `*`})}
	}, func(c *ACase, b *aBuilt) {
		s := rep(c.S[0], c.N[0])
		k := min(c.N[0], 3000)
		t := rep(c.S[0], k)
		b.pats = append(b.pats, `{"a":["`+t+`"]}`, `{"a":[{"prefix":"`+t+`"}]}`, `{"a":[{"anything-but":["`+t+`"]}]}`)
		if c.N[1] > 0 {
			b.pats = append(b.pats, ext("shellstyle", "*z"))
		}
		if c.N[1] > 1 {
			b.pats = append(b.pats, ext("wildcard", "*a*b*"))
		}
		if c.N[0] > k {
			b.evWant(`{"a":"`+s+`"}`, 1, 2)
		}
		b.evWant(`{"a":"`+t+`"}`, 0, 1)
		if k > 1 {
			b.evWant(`{"a":"`+rep(c.S[0], k-1)+`"}`, 2)
		}
		b.ev(`{"q":"` + s + `","` + s + `":1,"a":1}`)
		b.evBad(`{"a":"` + s + `\`)
		b.evBad(`{"a":"` + s)
		b.evBad(`{"a":"` + s + `\u00`)
	}},
	{"huge numbers", 3, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 50000), g.N(6)}
	}, func(c *ACase, b *aBuilt) {
		n := c.N[0]
		num := []string{rep("9", n), "0." + rep("0", n) + "1", "1e" + rep("9", n), "1e-" + rep("9", n), "-" + rep("1", n) + "." + rep("3", n) + "E+" + fmt.Sprint(n), "1" + rep("0", n) + "e-" + fmt.Sprint(n)}[c.N[1]]
		b.mayErr = true
		b.pats = append(b.pats, `{"a":[1]}`, `{"a":[`+num+`]}`, `{"a":[0,"x",{"prefix":"1"}]}`)
		b.evAny(`{"a":` + num + `}`)
		b.evAny(`{"a":[1,` + num + `,2]}`)
		b.ev(`{"q":` + num + `,"a":1}`)
		b.evAny(`{"a":` + num)
	}},
	{"many fields", 3, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 40), g.R(1, 400), g.N(3), g.R(1, 20)}
	}, func(c *ACase, b *aBuilt) {
		k, n := c.N[0], c.N[1]
		if c.N[2] == 0 {
			// the number of states is 2 to the number of fields: see the sub "value lists"
			k = min(k, 8)
		}
		for j := 0; j < c.N[3]; j++ {
			var fs []string
			for i := 0; i < k; i++ {
				v := `["x","y"]`
				switch c.N[2] {
				case 1:
					v = []string{`["x"]`, `[{"exists":true}]`, `[{"prefix":"x"}]`}[i%3]
				case 2:
					v = []string{`["x"]`, `[{"exists":false}]`}[i%2]
				}
				fs = append(fs, fmt.Sprintf(`"f%03d":%s`, (i*7+j)%997, v))
			}
			b.pats = append(b.pats, "{"+strings.Join(fs, ",")+"}")
		}
		var all, some []string
		for i := 0; i < n; i++ {
			all = append(all, fmt.Sprintf(`"f%03d":"x"`, i))
			if i%2 == 0 {
				some = append(some, fmt.Sprintf(`"f%03d":"x"`, i))
			}
		}
		b.ev("{" + strings.Join(all, ",") + "}")
		b.ev("{" + strings.Join(some, ",") + "}")
		b.ev("{}")
	}},
	{"choices", 2, func(g *G, c *ACase) {
		// k paths with a value list each: patterns that share states
		c.N = []int{g.R(1, 8), g.R(1, 3), g.R(1, 12), g.R(0, 0xfff)}
	}, func(c *ACase, b *aBuilt) {
		rng := rand.New(rand.NewPCG(uint64(c.N[3]), 7))
		for j := 0; j < c.N[2]; j++ {
			var fs []string
			for i := 0; i < min(c.N[0], 6); i++ {
				var vs []string
				for v := 0; v < c.N[1]; v++ {
					vs = append(vs, []string{`"x"`, `"y"`, `{"prefix":"x"}`, `1`, `{"wildcard":"*x"}`, `{"equals-ignore-case":"X"}`}[rng.IntN(6)])
				}
				fs = append(fs, fmt.Sprintf(`"f%d":[%s]`, i, strings.Join(vs, ",")))
			}
			b.pats = append(b.pats, "{"+strings.Join(fs, ",")+"}")
		}
		var all []string
		for i := 0; i < c.N[0]; i++ {
			all = append(all, fmt.Sprintf(`"f%d":"x"`, i))
		}
		b.ev("{" + strings.Join(all, ",") + "}")
	}},
	{"long arrays", 2, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 5000), g.R(1, 250), g.R(1, 40)}
	}, func(c *ACase, b *aBuilt) {
		// patterns of one, two and three fields, over arrays for which n to the number of fields is moderate
		b.pats = append(b.pats, `{"a":["x","y"]}`, `{"a":[{"exists":true}]}`, `{"b":[{"exists":false}],"a":["x"]}`, `{"c":{"p":["x"],"q":["x"]}}`, `{"d":{"p":["x"],"q":["x"],"r":["y"]}}`)
		b.ev(`{"a":[` + rep(`"x",`, c.N[0]) + `"y"]}`)
		b.ev(`{"c":[` + rep(`{"p":"x","q":"x"},`, c.N[1]) + `{}]}`)
		b.ev(`{"d":[` + rep(`{"p":"x","q":"x","r":"x"},`, c.N[2]) + `[]]}`)
		b.ev(`{"a":[` + rep(`[`, c.N[2]) + rep(`],[]`, c.N[2]-1) + `]]}`)
	}},
	{"many matches", 1, func(g *G, c *ACase) {
		// n patterns with a value each, spread over some fields; events that match them all, or every third
		c.N = []int{pick(g, []int{10, 1000, 20000, 25000}), 1, g.N(2)}
		if g.P(1, 3) {
			// the fields are tried in pairs
			c.N = []int{pick(g, []int{10, 1000, 4000}), pick(g, []int{2, 10, 100}), g.N(2)}
		}
	}, func(c *ACase, b *aBuilt) {
		n, nf := c.N[0], c.N[1]
		lists := [2][][]string{make([][]string, nf), make([][]string, nf)}
		want := [2]map[int]bool{{}, {}}
		for i := 0; i < n; i++ {
			v := fmt.Sprintf(`"%d"`, i)
			if c.N[2] == 1 {
				v = fmt.Sprint(i)
			}
			b.pats = append(b.pats, fmt.Sprintf(`{"f%d":[%s]}`, i%nf, v))
			lists[0][i%nf] = append(lists[0][i%nf], v)
			want[0][i] = true
			if i%3 == 0 {
				lists[1][i%nf] = append(lists[1][i%nf], v)
				want[1][i] = true
			}
		}
		for k := range lists {
			var fs []string
			for j, l := range lists[k] {
				fs = append(fs, fmt.Sprintf(`"f%d":[%s]`, j, strings.Join(l, ",")))
			}
			b.evs = append(b.evs, aEvent{text: []byte("{" + strings.Join(fs, ",") + "}"), want: want[k]})
		}
	}},
	{"repeated names", 1, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 3000), g.R(1, 60)}
	}, func(c *ACase, b *aBuilt) {
		b.pats = append(b.pats, `{"a":["x"]}`, `{"a":["x"],"b":["x"]}`)
		b.ev(`{` + rep(`"a":"x",`, c.N[0]) + `"c":1}`)
		b.ev(`{` + rep(`"a":"x","b":"x",`, c.N[1]) + `"c":1}`)
	}},
	{"bytes", 10, func(g *G, c *ACase) {
		for i := 0; i < 6; i++ {
			n := g.W(3, 3, 2, 1) * g.R(1, 40)
			x := make([]byte, n)
			for j := range x {
				switch g.W(3, 2, 1) {
				case 0:
					x[j] = "{}[]\":,\\au1-e.0 tfn*~()|?+"[g.N(25)]
				case 1:
					x[j] = byte(g.N(128))
				default:
					x[j] = byte(g.N(256))
				}
			}
			c.B = append(c.B, x)
		}
	}, func(c *ACase, b *aBuilt) {
		b.mayErr = true
		b.pats = append(b.pats, `{"a":["x",1,{"prefix":"x"}],"b":[{"exists":false}]}`)
		for i, x := range c.B {
			s := string(x)
			b.pats = append(b.pats, s, `{"a":[`+s+`]}`, `{"a":["`+s+`"]}`, `{"`+s+`":["a"]}`)
			if t, cost := judgeRegexp(s); cost < 300 && (t != Yes || len(x) < 30) {
				b.pats = append(b.pats, `{"a":[{"regexp":"`+s+`"}]}`, `{"a":[{"wildcard":"`+s+`"}]}`, `{"a":[{"equals-ignore-case":"`+s+`"}]}`)
			}
			b.evAny(s)
			b.evAny(`{"a":` + s + `}`)
			b.evAny(`{"a":"` + s + `"}`)
			b.evAny(`{"` + s + `":1}`)
			b.evAny(`{"c":` + s + `,"a":"x"}`)
			_ = i
		}
	}},
	{"very long values", 1, func(g *G, c *ACase) {
		c.N = []int{g.R(1000, 120000), g.R(2, 3), g.N(3)}
		c.S = []string{pick(g, []string{"s", "prefix", "anything-but", "mixed"}), pick(g, []string{"a", "ab", "é", "中b"})}
	}, func(c *ACase, b *aBuilt) {
		// strings which differ late
		long := rep(c.S[1], c.N[0]/len(c.S[1]))
		var vals []string
		for i := 0; i < c.N[1]; i++ {
			v := long + fmt.Sprint(i)
			switch c.N[2] {
			case 1:
				v = long[:len(long)/len(c.S[1])/(i+1)*len(c.S[1])] + "x"
			case 2:
				v = long + rep("y", 3*i)
			}
			vals = append(vals, v)
		}
		kinds := make([]string, len(vals))
		for i, v := range vals {
			kinds[i] = c.S[0]
			if c.S[0] == "mixed" {
				kinds[i] = []string{"s", "prefix", "anything-but"}[i%3]
			}
			switch kinds[i] {
			case "s":
				b.pats = append(b.pats, `{"a":["`+v+`"]}`)
			case "prefix":
				b.pats = append(b.pats, ext("prefix", v))
			default:
				b.pats = append(b.pats, `{"a":[{"anything-but":["`+v+`"]}]}`)
			}
		}
		for _, e := range append([]string{long, long + "z", vals[0] + "z", "q"}, vals...) {
			var is []int
			for i, v := range vals {
				if kinds[i] == "s" && e == v || kinds[i] == "prefix" && strings.HasPrefix(e, v) || kinds[i] == "anything-but" && e != v {
					is = append(is, i)
				}
			}
			b.evWant(strEvent(e), is...)
		}
	}},
	{"bottomless arrays", 1, func(g *G, c *ACase) {
		c.N = []int{g.R(1000, 1500000), g.N(4)}
	}, func(c *ACase, b *aBuilt) {
		n := c.N[0]
		open, shut := "[", "]"
		switch c.N[1] {
		case 1:
			open, shut = `[[],`, "]"
		case 2:
			open, shut = `{"q":`, "}"
		case 3:
			open, shut = `[{"q":`, "}]"
		}
		b.pats = append(b.pats, `{"a":["x"]}`, `{"a":[{"exists":false}]}`, `{"b":["y"],"a":[{"exists":true}]}`)
		if c.N[1] < 2 {
			b.evWant(`{"a":`+rep(open, n)+`"x"`+rep(shut, n)+`,"b":"y"}`, 0, 2)
		} else {
			b.evWant(`{"a":`+rep(open, n)+`"x"`+rep(shut, n)+`,"b":"y"}`, 1)
		}
		b.evWant(`{"z":`+rep(open, n)+`"x"`+rep(shut, n)+`,"b":"y"}`, 1)
		b.evBad(`{"a":` + rep(open, n))
		b.evBad(`{"a":` + rep(open, n) + `"x"` + rep(shut, n-1) + `}x`)
		b.evBad(`{"z":` + rep(open, n))
	}},
	// the recorded finding: each value has the positions in all the arrays around it
	{"values around nested arrays", 0, nil, func(c *ACase, b *aBuilt) {
		b.pats = append(b.pats, `{"a":[2]}`)
		b.evWant(`{"a":` + rep("[1,", c.N[0]) + "1" + rep("]", c.N[0]) + `}`)
	}},
	{"churn", 1, func(g *G, c *ACase) {
		c.N = []int{g.R(1, 600), g.R(1, 40)}
		c.Del = true
	}, func(c *ACase, b *aBuilt) {
		for i := 0; i < c.N[0]; i++ {
			b.pats = append(b.pats, fmt.Sprintf(`{"a":["v%d",{"prefix":"w%d"}]}`, i%c.N[1], i))
		}
		for i := 0; i < 20; i++ {
			b.ev(strEvent(fmt.Sprintf("v%d", i)))
		}
	}},
}

func famOf(name string) *aFam {
	for i := range aFams {
		if aFams[i].name == name {
			return &aFams[i]
		}
	}
	for i := range hugeFams {
		if "huge: "+hugeFams[i].name == name {
			return &hugeFams[i].aFam
		}
	}
	panic(infra{"unknown family " + name})
}

// allowances: what a case may cost. The costs on the tree this was written for are below a hundredth of it.
const (
	allowCPU   = 20 * time.Second
	allowBytes = 6 << 30
)

func checkA(c any, r *Rec) error {
	m := c.(*ACase)
	f := famOf(m.Fam)
	cc := *m
	cc.S = append([]string(nil), m.S...)
	var b aBuilt
	f.build(&cc, &b)
	size := 0
	var opts []quamina.Option
	if m.Del {
		opts = append(opts, quamina.WithPatternDeletion(true))
	}
	q := mustNew(opts...)
	var ms0, ms1 runtime.MemStats
	runtime.ReadMemStats(&ms0)
	t0 := cpuTime()
	step := func(what string) error {
		if d := cpuTime() - t0; d > allowCPU {
			return fmt.Errorf("%s %v %q: %s only after %v of CPU time", m.Fam, m.N, m.S, what, d)
		}
		return nil
	}
	ok := 0
	for i, p := range b.pats {
		size += len(p)
		err := q.AddPattern(i, p)
		if err != nil && !b.mayErr {
			return fmt.Errorf("AddPattern(%s): unexpected error %v", clip(p, 300), err)
		}
		if err == nil {
			ok++
		}
		if err := step(fmt.Sprintf("AddPattern(%s) returned", clip(p, 200))); err != nil {
			return err
		}
	}
	if m.Del {
		for i := range b.pats {
			if i%2 == 0 {
				if err := q.DeletePatterns(i); err != nil {
					return err
				}
			}
		}
	}
	matched := false
	for i := range b.evs {
		e := &b.evs[i]
		size += len(e.text)
		for n := 0; n < 2; n++ {
			xs, err := q.MatchesForEvent(e.text)
			if e.bad && err == nil {
				return fmt.Errorf("event %s: an error was expected", clip(string(e.text), 300))
			}
			if !e.bad && !e.any && err != nil {
				return fmt.Errorf("event %s: unexpected error %v", clip(string(e.text), 300), err)
			}
			matched = matched || len(xs) > 0
			if e.want != nil {
				got := map[int]bool{}
				for _, x := range xs {
					if got[x.(int)] {
						return fmt.Errorf("event %s: %v reported twice", clip(string(e.text), 300), x)
					}
					got[x.(int)] = true
				}
				for k := range b.pats {
					if k < len(b.pats) && !exempt(m, k) && got[k] != e.want[k] {
						return fmt.Errorf("event %s: pattern %s: reported %v, but should be %v", clip(string(e.text), 300), clip(b.pats[k], 300), got[k], e.want[k])
					}
				}
			}
			if err := step(fmt.Sprintf("event %s was matched", clip(string(e.text), 200))); err != nil {
				return err
			}
		}
	}
	runtime.ReadMemStats(&ms1)
	allow := uint64(allowBytes)
	if m.Fam == "values around nested arrays" {
		allow = 1 << 30 // one event of 4 bytes for each level
	}
	if d := ms1.TotalAlloc - ms0.TotalAlloc; d > allow {
		return fmt.Errorf("%s %v %q: %d bytes were allocated", m.Fam, m.N, m.S, d)
	}
	if f, err := os.OpenFile(os.Getenv("QC_COST"), os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0o644); err == nil {
		fmt.Fprintf(f, "%8.3f %6d %s %v %q\n", (cpuTime() - t0).Seconds(), (ms1.TotalAlloc-ms0.TotalAlloc)>>20, m.Fam, m.N, m.S)
		f.Close()
	}
	r.Label(m.Fam)
	d := cpuTime() - t0
	for _, l := range []time.Duration{10, 100, 1000, 5000} {
		if d > l*time.Millisecond {
			r.Label(fmt.Sprintf("took over %d ms of CPU", l))
		}
	}
	r.NonTrivialIf(matched || ok > 0 && size > 200)
	return nil
}

// exempt: patterns for which the family gives no expectation.
func exempt(c *ACase, k int) bool { return c.Fam == "long strings" && k > 2 }

func genA(g *G, idx int) any {
	tot := 0
	for i := range aFams {
		tot += aFams[i].weight
	}
	k := idx % tot
	for i := range aFams {
		if k < aFams[i].weight {
			c := &ACase{Fam: aFams[i].name}
			aFams[i].gen(g, c)
			return c
		}
		k -= aFams[i].weight
	}
	return nil
}

// What it costs when one dimension doubles.
type DoubleCase struct {
	Shape string   `json:"shape"`
	K     int      `json:"k"`
	S     []string `json:"s,omitempty"`
	Seed  int      `json:"seed,omitempty"`
}

type growShape struct {
	name  string
	maxK  int
	gen   func(g *G, c *DoubleCase)
	build func(c *DoubleCase, k int) (pats []string, events []string)
	never bool // only for the recorded finding
}

func growAtoms(g *G, c *DoubleCase) {
	for i, n := 0, g.R(1, 3); i < n; i++ {
		c.S = append(c.S, pick(g, []string{"a", "b", ".", "[ab]", "(a|b)", "(a|ab)", "(|a)", "a?", "a*", "a+", "(a*)", "(a+b?)", "é", "(.|a)", "(a?b?)*", "(a*b)?", "(aa|a)+"}))
	}
}

var growShapes = []growShape{
	{"regexp concatenation", 24, growAtoms, func(c *DoubleCase, k int) ([]string, []string) {
		return []string{ext("regexp", rep(strings.Join(c.S, ""), k))}, []string{strEvent(rep("ab", 2*k)), strEvent(rep("a", 3*k) + "!")}
	}, false},
	{"regexp count", 24, growAtoms, func(c *DoubleCase, k int) ([]string, []string) {
		return []string{ext("regexp", fmt.Sprintf("(%s){%d}", strings.Join(c.S, ""), k)), ext("regexp", fmt.Sprintf("(%s){1,%d}", strings.Join(c.S, ""), k))}, []string{strEvent(rep("ab", 2*k)), strEvent(rep("a", 3*k) + "!")}
	}, false},
	{"regexp tower", 6, func(g *G, c *DoubleCase) {
		c.S = []string{pick(g, []string{"a", ".", "a|b", "ab?", "a|aa", ""}), pick(g, []string{"*", "+", "?"}), pick(g, []string{"*", "+", "?"})}
	}, func(c *DoubleCase, k int) ([]string, []string) {
		s := c.S[0]
		for i := 0; i < k; i++ {
			s = "(" + s + ")" + c.S[1+i%2]
		}
		return []string{ext("regexp", s)}, []string{strEvent(rep("a", 20*k)), strEvent(rep("a", 20*k) + "!")}
	}, false},
	{"regexp alternatives", 24, growAtoms, func(c *DoubleCase, k int) ([]string, []string) {
		var as []string
		for i := 0; i < k; i++ {
			as = append(as, c.S[i%len(c.S)]+string(rune('a'+i%26))+c.S[0])
		}
		s := strings.Join(as, "|")
		return []string{ext("regexp", s), ext("regexp", "("+s+")*")}, []string{strEvent(rep("ab", 2*k)), strEvent(rep("a", 3*k) + "!")}
	}, false},
	{"wildcards on one path", 16, func(g *G, c *DoubleCase) { c.Seed = g.N(1000) }, func(c *DoubleCase, k int) ([]string, []string) {
		rng := rand.New(rand.NewPCG(uint64(c.Seed), 7))
		w := func(n int) string {
			s := ""
			for j := 0; j < n; j++ {
				s += string(rune('a' + rng.IntN(2)))
			}
			return s
		}
		var ps []string
		for i := 0; i < k; i++ {
			ps = append(ps, ext("wildcard", w(rng.IntN(3))+"*"+w(1+rng.IntN(3))+"*"+w(1+rng.IntN(2))))
		}
		return ps, []string{strEvent(w(10 * k)), strEvent(w(10 * k))}
	}, false},
	{"stars in one wildcard", 24, func(g *G, c *DoubleCase) { c.S = []string{pick(g, []string{"a", "ab", "aab", "é"})} }, func(c *DoubleCase, k int) ([]string, []string) {
		return []string{ext("wildcard", "*"+rep(c.S[0]+"*", k)+"x"), ext("wildcard", rep(c.S[0]+"*", k)+"y")}, []string{strEvent(rep("a", 10*k)), strEvent(rep("ab", 5*k) + "x")}
	}, false},
	{"mixed matchers on one path", 20, func(g *G, c *DoubleCase) { c.Seed = g.N(1000) }, func(c *DoubleCase, k int) ([]string, []string) {
		rng := rand.New(rand.NewPCG(uint64(c.Seed), 7))
		w := func(n int) string {
			s := ""
			for j := 0; j < n; j++ {
				s += string(rune('a' + rng.IntN(2)))
			}
			return s
		}
		var ps []string
		for i := 0; i < k; i++ {
			v := w(1 + rng.IntN(4))
			switch rng.IntN(6) {
			case 0:
				ps = append(ps, ext("prefix", v))
			case 1:
				ps = append(ps, ext("equals-ignore-case", v))
			case 2:
				ps = append(ps, `{"a":[{"anything-but":["`+v+`","`+w(3)+`"]}]}`)
			case 3:
				ps = append(ps, ext("wildcard", "*"+v))
			case 4:
				ps = append(ps, ext("regexp", v+"("+w(2)+")*"+w(1)))
			default:
				ps = append(ps, `{"a":["`+v+`"]}`)
			}
		}
		return ps, []string{strEvent(w(10 * k)), strEvent(w(3))}
	}, false},
	{"length of one string", 200, func(g *G, c *DoubleCase) {
		c.S = []string{pick(g, []string{"prefix", "equals-ignore-case", "s", "anything-but", "wildcard"}), pick(g, []string{"a", "é", "K", "ſs", "中", "\U0001f600"})}
	}, func(c *DoubleCase, k int) ([]string, []string) {
		s := rep(c.S[1], k)
		ps := []string{`{"a":["` + s + `"]}`}
		switch c.S[0] {
		case "s":
		case "anything-but":
			ps[0] = `{"a":[{"anything-but":["` + s + `"]}]}`
		default:
			ps[0] = ext(c.S[0], s)
		}
		return ps, []string{strEvent(s), strEvent(s + s)}
	}, false},
	{"fields of one value", 20, func(g *G, c *DoubleCase) { c.Seed = g.N(3) }, func(c *DoubleCase, k int) ([]string, []string) {
		var fs, es []string
		for i := 0; i < k; i++ {
			fs = append(fs, fmt.Sprintf(`"f%02d":[%s]`, i, []string{`"x"`, `{"exists":true}`, `{"prefix":"x"}`}[(i+c.Seed)%3]))
			es = append(es, fmt.Sprintf(`"f%02d":"x"`, i))
		}
		return []string{"{" + strings.Join(fs, ",") + "}"}, []string{"{" + strings.Join(es, ",") + "}"}
	}, false},
	{"values of one field", 100, func(g *G, c *DoubleCase) { c.Seed = g.N(1000) }, func(c *DoubleCase, k int) ([]string, []string) {
		rng := rand.New(rand.NewPCG(uint64(c.Seed), 7))
		var vs []string
		for i := 0; i < k; i++ {
			vs = append(vs, fmt.Sprintf(`"%x"`, rng.IntN(1<<20)))
		}
		l := strings.Join(vs, ",")
		return []string{`{"a":[` + l + `]}`, `{"a":[{"anything-but":[` + l + `]}]}`}, []string{`{"a":` + vs[0] + `}`}
	}, false},
	{"depth", 100, func(g *G, c *DoubleCase) { c.S = []string{pick(g, []string{`{"a":`, `[`, `{"a":[`, `[{"a":`})} }, func(c *DoubleCase, k int) ([]string, []string) {
		shut := map[string]string{`{"a":`: "}", `[`: "]", `{"a":[`: "]}", `[{"a":`: "}]"}[c.S[0]]
		return []string{rep(`{"a":`, k) + `["x"]` + rep("}", k)}, []string{`{"a":` + rep(c.S[0], k) + `"x"` + rep(shut, k) + `}`}
	}, false},
	{"several arrays", 8, nil, func(c *DoubleCase, k int) ([]string, []string) {
		var fs, es []string
		for i := 0; i < k; i++ {
			fs = append(fs, fmt.Sprintf(`"f%02d":["x"]`, i))
			es = append(es, fmt.Sprintf(`"f%02d":["x","x","x","x","x","x","x","x"]`, i))
		}
		return []string{`{` + strings.Join(fs, ",") + `,"z":["y"]}`}, []string{"{" + strings.Join(es, ",") + `,"z":"x"}`}
	}, true},
	{"value lists", 8, nil, func(c *DoubleCase, k int) ([]string, []string) {
		var fs, es []string
		for i := 0; i < k; i++ {
			fs = append(fs, fmt.Sprintf(`"f%02d":["x","y"]`, i))
			es = append(es, fmt.Sprintf(`"f%02d":"x"`, i))
		}
		return []string{"{" + strings.Join(fs, ",") + "}"}, []string{"{" + strings.Join(es, ",") + "}"}
	}, true},
}

func growOf(name string) *growShape {
	for i := range growShapes {
		if growShapes[i].name == name {
			return &growShapes[i]
		}
	}
	panic(infra{"unknown shape " + name})
}

const (
	growRatio = 40       // less than 2 to the power of 5.4
	growFloor = 4 << 20  // bytes
	growSlack = 64 << 10 // bytes
)

// growCost is what it costs to add the patterns, in bytes allocated, and to match the events. The events are
// matched once before counting, because an instance's buffers grow during its first calls.
func growCost(pats, events []string) (add uint64, states int, err error) {
	var ms0, ms1 runtime.MemStats
	q := mustNew()
	runtime.ReadMemStats(&ms0)
	for i, p := range pats {
		if err := q.AddPattern(i, p); err != nil {
			return 0, 0, fmt.Errorf("AddPattern(%s): unexpected error %v", clip(p, 300), err)
		}
	}
	runtime.ReadMemStats(&ms1)
	for _, e := range events {
		if _, err := q.MatchesForEvent([]byte(e)); err != nil {
			return 0, 0, fmt.Errorf("event %s: unexpected error %v", clip(e, 300), err)
		}
	}
	return ms1.TotalAlloc - ms0.TotalAlloc, 0, nil
}

func checkDouble(c any, r *Rec) error {
	m := c.(*DoubleCase)
	f := growOf(m.Shape)
	if m.K < 1 || m.K > f.maxK {
		return nil
	}
	p1, e1 := f.build(m, m.K)
	p2, e2 := f.build(m, 2*m.K)
	t0 := cpuTime()
	a1, _, err := growCost(p1, e1)
	if err != nil {
		return err
	}
	t1 := cpuTime()
	a2, _, err := growCost(p2, e2)
	if err != nil {
		return err
	}
	t2 := cpuTime()
	if os.Getenv("QC_COST") != "" {
		f, _ := os.OpenFile(os.Getenv("QC_COST"), os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0o644)
		fmt.Fprintf(f, "%8.2f %9d %9d %8.3f %8.3f %s %d %q\n", float64(a2)/float64(a1+growSlack), a1, a2, (t1 - t0).Seconds(), (t2 - t1).Seconds(), m.Shape, m.K, m.S)
		f.Close()
	}
	if a2 > growFloor && a2 > growRatio*(a1+growSlack) {
		return fmt.Errorf("%s %q: at size %d adding the patterns allocates %d bytes, at size %d %d bytes, %.0f times as much", m.Shape, m.S, m.K, a1, 2*m.K, a2, float64(a2)/float64(a1))
	}
	if d1, d2 := t1-t0, t2-t1; d2 > time.Second && d2 > 2*growRatio*(d1+10*time.Millisecond) {
		return fmt.Errorf("%s %q: at size %d adding the patterns and matching takes %v of CPU time, at size %d %v", m.Shape, m.S, m.K, d1, 2*m.K, d2)
	}
	r.Label(m.Shape)
	r.NonTrivialIf(a2 > a1+a1/2)
	return nil
}

func genDouble(g *G, idx int) any {
	n := 0
	for i := range growShapes {
		if !growShapes[i].never {
			n++
		}
	}
	k := idx % n
	for i := range growShapes {
		if growShapes[i].never {
			continue
		}
		if k == 0 {
			c := &DoubleCase{Shape: growShapes[i].name}
			growShapes[i].gen(g, c)
			c.K = g.R(1+growShapes[i].maxK/2, growShapes[i].maxK)
			return c
		}
		k--
	}
	return nil
}

func init() {
	var names []string
	for i := range aFams {
		names = append(names, aFams[i].name)
	}
	sort.Strings(names)
	register(&Prop{ID: "C25", Rule: "non-trivial: something matched, or at least one pattern was accepted and the texts amount to more than 200 bytes",
		Subs: []*Sub{
			{Name: "families", Quick: 2400, Thorough: 60000, New: func() any { return &ACase{} }, Check: checkA, Gen: genA, HangCPU: 30 * time.Second,
				Rule: "families of inputs made to be expensive or to crash (" + strings.Join(names, ", ") + "), with random parameters; every call has to return, without panic, within 20 s of CPU time and 6 GB of allocations per case, and with the right result where the family knows it"},
			{Name: "doubling", Quick: 1000, Thorough: 30000, New: func() any { return &DoubleCase{} }, Check: checkDouble, Gen: genDouble, HangCPU: 30 * time.Second,
				Rule: "patterns and events of a given shape, at size k and at size 2k: doubling the size must not multiply the bytes allocated for adding the patterns by more than 40, nor (beyond 1 s) the CPU time by more than 80; non-trivial: the larger case allocates half as much again"},
		}})
}
