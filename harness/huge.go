package main

// Cases much larger than those of the scale subs, of simple shapes for which the right result is known without
// a model. A case is a family and a few numbers and strings; it is expanded when it is checked. The format of the
// cases, and the check, are those of C25's families.

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

var hugeSizes = []int{129, 255, 256, 257, 300, 511, 513, 600, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2049, 3000, 4095, 4096, 4097, 5000, 5001, 8191, 8193, 9999, 10000, 10001, 16383, 16385, 20000,
	32766, 32767, 32768, 32769, 50000, 65534, 65535, 65536, 65537, 65538, 70000, 100000, 100001, 131071, 131073, 200000, 262145, 500000, 1 << 20, 1500000}

func hugeSize(g *G, most int) int {
	n := 0
	for n < len(hugeSizes) && hugeSizes[n] <= most {
		n++
	}
	return hugeSizes[g.N(n)]
}

type hFam struct {
	props string
	aFam
}

func elems(n int, filler string, at map[int]string) string {
	var b strings.Builder
	b.WriteString("[")
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(",")
		}
		if s, ok := at[i]; ok {
			b.WriteString(s)
		} else {
			b.WriteString(filler)
		}
	}
	b.WriteString("]")
	return b.String()
}

// damage changes a string at one place.
func damage(s string, at int) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return "!"
	}
	at %= len(rs)
	rs[at] = rs[at] ^ 1
	if rs[at] == '"' || rs[at] == '\\' || rs[at] < ' ' || !utf8.ValidRune(rs[at]) {
		rs[at] = '!'
	}
	return string(rs)
}

var hugeUnits = []string{"a", "ab", "abc", "é", "aé", "中", "\U0001f600", "~", "K", "xyzzy"}

func longText(unit string, n int) string {
	s := rep(unit, n/len(unit)+1)
	for n > 0 && n < len(s) && !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:n]
}

// around gives the places where a long text is cut or damaged: the ends, the middle, and near powers of two
func around(g *G, n int) []int {
	out := []int{0, n - 1}
	for i := 0; i < 3; i++ {
		k := hugeSize(g, max(129, n))
		if k < n {
			out = append(out, k, k-1)
		} else {
			out = append(out, n/2)
		}
	}
	return out
}

var hugeFams = []hFam{
	{"C01 C02", aFam{"far elements", 4, func(g *G, c *ACase) {
		d := hugeSize(g, 131073)
		i := g.N(3)
		c.N = []int{i, i + d + g.R(-1, 1), g.N(3), g.N(3)}
		c.S = []string{pick(g, []string{"{}", "0", "[]", "null", `{"x":2}`, `{"y":3}`, `{"q":[1]}`, `"s"`, `{"x":[]}`})}
	}, func(c *ACase, b *aBuilt) {
		i, j := c.N[0], c.N[1]
		n := j + 1 + c.N[2]
		b.pats = append(b.pats, `{"a":{"x":[1],"y":[1]}}`, `{"a":{"x":[1]}}`, `{"a":{"x":[1],"y":[{"exists":true}]}}`, `{"a":{"x":[1],"y":[2]}}`, `{"a":{"x":[1],"y":[1],"z":[1]}}`, `{"a":{"q":[7]}}`)
		ev := func(at map[int]string, is ...int) {
			b.evWant(`{"a":`+rep("[", c.N[3])+elems(n, c.S[0], at)+rep("]", c.N[3])+`}`, is...)
		}
		ev(map[int]string{i: `{"x":1}`, j: `{"y":1}`}, 1)
		ev(map[int]string{i: `{"y":1}`, j: `{"x":1}`}, 1)
		ev(map[int]string{i: `{"x":1,"y":1}`, j: `{"y":1,"z":1}`}, 0, 1, 2)
		ev(map[int]string{i: `{"x":1,"z":1}`, j: `{"x":1,"y":1}`}, 0, 1, 2)
		ev(map[int]string{i: `{"y":2}`, j: `{"z":1,"y":1,"x":1}`}, 0, 1, 2, 4)
		ev(map[int]string{i: `{"x":1}`, j: `{"y":2,"x":2}`}, 1)
		ev(map[int]string{j: `{"y":1}`})
	}}},
	{"C01 C02", aFam{"many arrays", 6, func(g *G, c *ACase) {
		c.N = []int{pick(g, []int{1 << 7, 1 << 8, 1 << 10, 1 << 15, 1 << 16, 1 << 16, 1 << 17}) - g.R(0, 6), g.N(3), g.N(4), g.N(3)}
	}, func(c *ACase, b *aBuilt) {
		// the arrays of a and c, and k others between them
		k := c.N[0]
		mid := []string{elems(k, "[]", nil), elems(k, `{"q":[]}`, nil), elems(k/2, "[[]]", nil), "[" + rep("[", k/4) + rep("]", k/4) + "," + elems(k-k/4, "[]", nil) + "]"}[c.N[2]]
		pos := func(i int, s string) string {
			return "[" + rep("0,", i) + s + rep(",0", 2-i) + "]"
		}
		b.pats = append(b.pats, `{"a":["x"],"c":["y"]}`, `{"b":["n"]}`, `{"b":{"q":["n"]}}`, `{"o":{"a":["x"],"c":["y"]}}`, `{"o":{"b":["n"]}}`, `{"a":["x"]}`, `{"o":{"a":["x"]}}`, `{"o":{"b":{"q":["n"]}}}`)
		for i := 0; i < 3; i++ {
			j := (i + 1 + c.N[1]) % 3
			a, z := pos(i, `"x"`), pos(j, `"y"`)
			for w := 0; w < c.N[3]; w++ {
				a, z = "["+a+"]", "[0,"+z+"]"
			}
			b.evWant(`{"a":`+a+`,"b":`+mid+`,"c":`+z+`}`, 0, 5)
			b.evWant(`{"c":`+z+`,"b":`+mid+`,"a":`+a+`}`, 0, 5)
			b.evWant(`{"o":[{"a":`+a+`,"b":`+mid+`,"c":`+z+`}]}`, 3, 6)
			b.evWant(`{"o":[{"a":`+a+`,"b":`+mid+`},{"c":`+z+`}]}`, 6)
			b.evWant(`{"o":[{"c":`+z+`},{"b":`+mid+`},{"a":`+a+`}]}`, 6)
			b.evWant(`{"o":{"c":`+z+`,"a":`+a+`},"b":`+mid+`}`, 3, 6)
		}
	}}},
	{"C01 C13 C14", aFam{"deep values", 4, func(g *G, c *ACase) {
		c.N = []int{hugeSize(g, pick(g, []int{3000, 20000, 1500000})), g.N(7), g.N(3)}
	}, func(c *ACase, b *aBuilt) {
		n := c.N[0]
		shape := [][2]string{{"[", "]"}, {"[[],", "]"}, {`{"q":`, "}"}, {`[{"q":`, "}]"}, {`{"a":`, "}"}, {`[1,{"a":[{},`, "]}]"}, {`{"\"]":"}{",` + "\n" + `"q":[`, "]}"}}[c.N[1]]
		deep := rep(shape[0], n) + `"x"` + rep(shape[1], n)
		b.pats = append(b.pats, `{"b":["y"]}`, `{"o":{"b":["y"]}}`, `{"o":{"c":[1]},"z":[1]}`, `{"b":["y"],"z":[{"exists":false}]}`)
		if c.N[1] < 2 {
			b.pats = append(b.pats, `{"a":["x"]}`, `{"a":[{"exists":false}]}`)
			b.evWant(`{"a":`+deep+`,"b":"y"}`, 0, 3, 4)
		}
		after := []int{0, 3}
		if c.N[1] < 2 {
			after = append(after, 5)
		}
		b.evWant(`{"u":`+deep+`,"b":"y"}`, after...)
		b.evWant(`{"b":"y","u":`+deep+`}`, after...)
		b.evWant(`{"u":[`+deep+`,`+deep+`],"b":"y"}`, after...)
		after[0], after[1] = 1, 2
		b.evWant(`{"o":{"b":"y","c":1,"u":`+deep+`},"z":1}`, after...)
		b.evWant(`{"o":{"u":`+deep+`,"b":"y","c":1},"z":1}`, after...)
		b.evBad(`{"u":` + deep[:len(deep)-1] + `,"b":"y"`)
		b.evBad(`{"u":` + rep(shape[0], n))
		b.evBad(`{"o":{"b":"y","c":1,"u":` + rep(shape[0], n))
		b.evBad(`{"b":"n","u":` + deep)
	}}},
	{"C01 C10 C13 C14", aFam{"deep patterns", 2, func(g *G, c *ACase) {
		c.N = []int{hugeSize(g, pick(g, []int{600, 3000, 5001})), g.N(4)}
		c.S = []string{pick(g, []string{"a", "", "é", `\"`, "long name"})}
	}, func(c *ACase, b *aBuilt) {
		n := c.N[0]
		in := `{"` + c.S[0] + `":`
		b.pats = append(b.pats, rep(in, n)+`["x",{"prefix":"y"}]`+rep("}", n), rep(in, n-1)+`["z"]`+rep("}", n-1))
		open, shut := in, "}"
		if c.N[1] == 1 {
			open, shut = in+"[1,", "]}"
			n = min(n, 1200)
			b.pats[0] = rep(in, n) + `["x",{"prefix":"y"}]` + rep("}", n)
			b.pats[1] = rep(in, n-1) + `["z"]` + rep("}", n-1)
		}
		b.evWant(rep(open, n)+`"x"`+rep(shut, n), 0)
		b.evWant(rep(open, n)+`"yz"`+rep(shut, n), 0)
		b.evWant(rep(open, n) + `"z"` + rep(shut, n))
		b.evWant(rep(open, n-1)+`"z"`+rep(shut, n-1), 1)
		b.evWant(rep(open, n-1) + `"x"` + rep(shut, n-1))
		b.evWant(rep(open, n+1) + `"x"` + rep(shut, n+1))
		b.evBad(rep(open, n) + `"q"`)
		b.evBad(rep(open, n))
	}}},
	{"C01 C05 C10 C13 C14", aFam{"long text", 4, func(g *G, c *ACase) {
		n := hugeSize(g, pick(g, []int{1100, 10001, 131073}))
		c.N = append([]int{n + g.R(-1, 1), g.N(4)}, around(g, n)...)
		c.S = []string{pick(g, hugeUnits), pick(g, []string{"s", "prefix", "anything-but", "name", "two"})}
	}, func(c *ACase, b *aBuilt) {
		long := longText(c.S[0], c.N[0])
		spelt := func(s string) string {
			switch c.N[1] {
			case 1: // an escape at the start
				return `"` + fmt.Sprintf(`\u%04x`, 'a') + s[1:] + `"`
			case 2:
				return js(s)
			}
			return `"` + s + `"`
		}
		if long[0] != 'a' {
			c.N[1] = 0
		}
		others := []string{long + "!", long + long[:1], long[:len(long)/2], ""}
		if long[len(long)-1] < utf8.RuneSelf {
			others = append(others, long[:len(long)-1])
		}
		for _, at := range c.N[2:] {
			if o := damage(long, at); o != long && o != "" && o[0] == long[0] || c.N[1] != 1 {
				others = append(others, o)
			}
		}
		valid := func(s string) bool { return utf8.ValidString(s) }
		ok := func(s string) bool { return valid(s) && (c.N[1] != 1 || s != "" && s[0] == 'a') }
		switch c.S[1] {
		case "name":
			b.pats = append(b.pats, `{"`+long+`":[1]}`, `{"`+long+`":[{"exists":false}]}`, `{"o":{"`+long+`":{"p":[1]}}}`)
			b.evWant(`{`+spelt(long)+`:1}`, 0)
			b.evWant(`{` + spelt(long) + `:2}`)
			b.evWant(`{"o":{`+spelt(long)+`:{"p":1}}}`, 1, 2)
			for _, o := range others {
				if ok(o) {
					b.evWant(`{`+spelt(o)+`:1}`, 1)
					b.evWant(`{"u":`+spelt(o)+`,`+spelt(long)+`:1}`, 0)
					b.evWant(`{"o":{`+spelt(o)+`:{"p":1}}}`, 1)
				}
			}
			return
		case "two":
			b.pats = append(b.pats, `{"a":["`+long+`"],"b":["`+long+`"]}`, `{"a":["`+long+`"]}`)
			b.evWant(`{"a":`+spelt(long)+`,"b":`+spelt(long)+`}`, 0, 1)
			for _, o := range others {
				if ok(o) {
					b.evWant(`{"a":` + spelt(o) + `,"b":` + spelt(long) + `}`)
					b.evWant(`{"b":`+spelt(o)+`,"a":`+spelt(long)+`}`, 1)
				}
			}
			return
		case "s":
			b.pats = append(b.pats, `{"a":["`+long+`"]}`)
		case "prefix":
			b.pats = append(b.pats, ext("prefix", long))
		case "anything-but":
			b.pats = append(b.pats, `{"a":[{"anything-but":["`+long+`"]}]}`)
		}
		b.pats = append(b.pats, `{"a":["q","`+damage(long, len(long)-1)+`"]}`)
		last := damage(long, len(long)-1)
		for _, e := range append([]string{long, last, last + "z"}, others...) {
			if !ok(e) {
				continue
			}
			var is []int
			if c.S[1] == "s" && e == long || c.S[1] == "prefix" && strings.HasPrefix(e, long) || c.S[1] == "anything-but" && e != long {
				is = append(is, 0)
			}
			if e == last {
				is = append(is, 1)
			}
			b.evWant(`{"a":`+spelt(e)+`}`, is...)
		}
	}}},
	{"C01 C03 C13 C14", aFam{"many members", 3, func(g *G, c *ACase) {
		c.N = []int{hugeSize(g, pick(g, []int{2000, 131073})), g.N(4), g.N(3)}
	}, func(c *ACase, b *aBuilt) {
		n := c.N[0]
		vals := []string{`1`, `"x"`, `{"v":1,"w":[1]}`, `[{"v":"x"}]`, `null`, `[]`, `{}`, `-1.5e3`}
		var before, after strings.Builder
		for i := 0; i < n; i++ {
			w := &before
			if c.N[1] == 1 || c.N[1] > 1 && i%2 == 1 {
				w = &after
			}
			name := "m" + strconv.Itoa(i)
			if c.N[2] == 1 {
				name = "u" + name
			} else if c.N[2] == 2 {
				name = "v" + name
			}
			v := vals[i%len(vals)]
			if w == &before {
				before.WriteString(`"` + name + `":` + v + `,`)
			} else {
				after.WriteString(`,"` + name + `":` + v)
			}
		}
		b.pats = append(b.pats, `{"u":["x"],"v":[{"exists":false}]}`, `{"u":["x"],"v":[{"exists":true}]}`, `{"o":{"u":["x"]}}`, `{"a":[{"exists":false}],"u":["x"],"zz":[{"exists":false}]}`, `{"v":["x"],"o":{"u":[{"exists":false}]}}`)
		in := func(s string) string { return "{" + before.String() + s + after.String() + "}" }
		b.evWant(in(`"u":"x"`), 0, 3)
		b.evWant(in(`"u":"x","v":1`), 1, 3)
		b.evWant(in(`"u":"x","zz":1`), 0)
		b.evWant(in(`"a":null,"u":"x"`), 0)
		b.evWant(in(`"v":"x"`), 4)
		b.evWant(in(`"v":"x","u":"x"`), 1, 3, 4)
		b.evWant(in(`"o":{"u":"x"},"v":"x"`), 2)
		b.evWant(`{"o":`+in(`"u":"x"`)+`,"v":"x"}`, 2)
		b.evWant(`{"v":"x","o":`+in(`"v":"x"`)+`}`, 4)
		b.evWant(`{"o":`+in(`"u":"y"`)+`,"u":"x"}`, 0, 3)
		b.evWant(in(`"w":1`))
		s := in(`"w":1`)
		b.evBad(s[:len(s)-1])
		b.evBad(s + "x")
	}}},
	{"C13 C14", aFam{"white space", 2, func(g *G, c *ACase) {
		c.N = []int{hugeSize(g, 131073)}
		c.S = []string{pick(g, []string{" ", "\t", "\n", "\r", "\r\n", " \t", "\n "})}
	}, func(c *ACase, b *aBuilt) {
		w := rep(c.S[0], c.N[0])
		b.pats = append(b.pats, `{"a":["x"],"b":[1],"o":{"c":[true]}}`, `{"u":[{"exists":false}],"b":[1]}`, w+`{`+w+`"b"`+w+`:`+w+`[`+w+`1`+w+`,`+w+`{`+w+`"prefix"`+w+`:`+w+`"y"`+w+`}`+w+`]`+w+`}`+w)
		toks := []string{"", "{", `"a"`, ":", "[", `"x"`, ",", "2", "]", ",", `"b"`, ":", "1", ",", `"o"`, ":", "{", `"c"`, ":", "true", "}", "}"}
		for i := 0; i <= len(toks); i++ {
			b.evWant(strings.Join(toks[:i], "")+w+strings.Join(toks[i:], ""), 0, 1, 2)
		}
		b.evWant(strings.Join(toks, w), 0, 1, 2)
		b.evWant(`{"u":`+w+`1`+w+`,`+w+`"b":`+w+`1}`, 2)
		b.evWant(`{"n":`+w+`[`+w+`]`+w+`,"b":1`+w+`}`+w, 1, 2)
		b.evBad(w)
		b.evBad(w + "{" + w)
		b.evBad(`{"b":1}` + w + "x")
		b.evBad(`{"u":2` + w + `,`)
		b.evBad(`{"u":` + w + `x}`)
	}}},
	{"C04 C13 C14", aFam{"long numbers", 3, func(g *G, c *ACase) {
		c.N = []int{hugeSize(g, pick(g, []int{1100, 70000})), g.N(900)} // strconv reads five digits of an exponent
	}, func(c *ACase, b *aBuilt) {
		n, k := c.N[0], c.N[1]+1
		v := strconv.Itoa(k)
		b.pats = append(b.pats, `{"a":[`+v+`]}`, `{"a":[`+strconv.Itoa(k+1)+`]}`, `{"a":[{"exists":true}]}`, `{"a":[0.`+rep("0", n-1)+v+`e`+strconv.Itoa(n+len(v)-1)+`]}`)
		same := []string{v, v + "." + rep("0", n), v + rep("0", n) + "e-" + strconv.Itoa(n), v + rep("0", n) + ".0E-" + rep("0", 5) + strconv.Itoa(n), "0." + rep("0", n) + v + "e" + strconv.Itoa(n+len(v)), v + "e" + rep("0", n), v + "E+" + rep("0", n), v + "e-" + rep("0", n),
			v + "." + rep("0", n) + "1", v + ".0" + rep("0", n) + "999"}
		for _, s := range same {
			b.evWant(`{"a":`+s+`}`, 0, 2, 3)
			b.evWant(`{"a":-`+s+`}`, 2)
			b.evWant(`{"u":`+s+`,"a":[0,`+s+`]}`, 0, 2, 3)
		}
		b.evWant(`{"a":`+strconv.Itoa(k-1)+"."+rep("9", n)+`}`, 0, 2, 3)
		b.evWant(`{"a":`+strconv.Itoa(k)+"."+rep("9", n)+`}`, 1, 2)
		b.evWant(`{"a":`+v+".5"+rep("0", n)+`}`, 2)
		b.evWant(`{"a":"`+same[1]+`"}`, 2)
		for _, s := range []string{"0" + rep("0", n), rep("1", n) + ".", rep("1", n) + "e", rep("1", n) + ".x", rep("1", n) + "e+", "-", rep("1", n) + "x", "1.2" + rep("3", n) + ".4"} {
			b.evBad(`{"a":` + s + `}`)
		}
	}}},
	{"C04", aFam{"many numbers", 1, func(g *G, c *ACase) {
		c.N = []int{hugeSize(g, 3000), g.N(5), g.R(0, 0xfff)}
	}, func(c *ACase, b *aBuilt) {
		rng := rand.New(rand.NewPCG(uint64(c.N[2]), 7))
		text := func(i int) string {
			switch c.N[1] {
			case 0:
				return strconv.Itoa(i)
			case 1:
				return fmt.Sprintf("-%d.5", i)
			case 2:
				return fmt.Sprintf("%de20", i+1)
			case 3:
				return fmt.Sprintf("%de-9", i+1)
			}
			return strconv.Itoa(1<<40 + i)
		}
		for i := 0; i < c.N[0]; i++ {
			b.pats = append(b.pats, `{"a":[`+text(i)+`]}`)
		}
		for k := 0; k < 60; k++ {
			i := rng.IntN(c.N[0])
			if k < 6 {
				i = []int{0, c.N[0] - 1, 9, 10, 99, 128}[k] % c.N[0]
			}
			t := text(i)
			b.evWant(`{"a":`+t+`}`, i)
			if !strings.Contains(t, "e") {
				if !strings.Contains(t, ".") {
					t += ".0"
				}
				b.evWant(`{"a":`+t+`00e0}`, i)
				b.evWant(`{"a":` + t + `1}`)
			}
		}
		b.evWant(`{"a":` + text(c.N[0]) + `}`)
	}}},
	{"C01 C05 C10", aFam{"long lists", 2, func(g *G, c *ACase) {
		c.N = []int{hugeSize(g, 5001), g.R(0, 0xfff), g.R(1, 4)}
		c.S = []string{pick(g, []string{"s", "anything-but", "prefix", "mixed"})}
	}, func(c *ACase, b *aBuilt) {
		rng := rand.New(rand.NewPCG(uint64(c.N[1]), 7))
		in, pre := map[string]bool{}, []string{}
		var vs, words []string
		for i := 0; i < c.N[0]; i++ {
			s := ""
			for j := 0; j <= rng.IntN(12); j++ {
				s += string(rune('a' + rng.IntN(c.N[2])))
			}
			words = append(words, s)
			k := c.S[0]
			if k == "mixed" {
				k = []string{"s", "s", "prefix"}[i%3]
			}
			if k == "prefix" {
				s += "_"
				pre = append(pre, s)
				vs = append(vs, `{"prefix":"`+s+`"}`)
			} else {
				in[s] = true
				vs = append(vs, `"`+s+`"`)
			}
		}
		l := "[" + strings.Join(vs, ",") + "]"
		if c.S[0] == "anything-but" {
			l = `[{"anything-but":` + l + `}]`
		}
		b.pats = append(b.pats, `{"a":`+l+`}`)
		for i := 0; i < 120; i++ {
			s := words[rng.IntN(len(words))]
			if i < 10 {
				s = words[(len(words)-1)*i/9]
			}
			switch i % 4 {
			case 1:
				s += "a"
			case 2:
				s = s[:len(s)/2]
			case 3:
				s += "_z"
			}
			match := in[s]
			for _, p := range pre {
				match = match || strings.HasPrefix(s, p)
			}
			if match == (c.S[0] != "anything-but") {
				b.evWant(strEvent(s), 0)
			} else {
				b.evWant(strEvent(s))
			}
		}
	}}},
	{"C06", aFam{"long globs", 4, func(g *G, c *ACase) {
		n := hugeSize(g, pick(g, []int{300, 3000, 20000}))
		c.N = append([]int{n, g.N(4)}, around(g, n)...)
		c.S = []string{pick(g, hugeUnits), pick(g, []string{"wildcard", "shellstyle"})}
	}, func(c *ACase, b *aBuilt) {
		n := c.N[0]
		if c.N[1] == 0 {
			// many stars
			n = min(n, 300)
			var p, e, f strings.Builder
			for i := 0; i < n; i++ {
				w := string(rune('a'+i%26)) + strconv.Itoa(i%7)
				p.WriteString("*" + w)
				e.WriteString(rep("-", i%3) + w)
				if i != c.N[2]%n {
					f.WriteString(rep("-", i%3) + w)
				}
			}
			b.pats = append(b.pats, ext(c.S[1], p.String()), ext(c.S[1], p.String()+"*"), ext(c.S[1], p.String()[1:]))
			b.evWant(strEvent(e.String()), 0, 1, 2)
			b.evWant(strEvent("+"+e.String()), 0, 1)
			b.evWant(strEvent(e.String()+"!"), 1)
			if n-c.N[2]%n < 100 || c.N[2]%n == 0 {
				b.evWant(strEvent(f.String()))
			}
			return
		}
		long := longText(c.S[0], n)
		if n > 700 {
			// what repeats itself costs n² steps
			var b strings.Builder
			for i := 0; b.Len() < n; i++ {
				b.WriteString(c.S[0] + strconv.Itoa(i))
			}
			long = b.String()
		}
		p := strings.ReplaceAll(long, `\`, `\\`)
		b.pats = append(b.pats, ext(c.S[1], p+"*"), ext(c.S[1], "*"+p), ext(c.S[1], "x*"+p+"*x"), ext(c.S[1], p))
		b.evWant(strEvent(long), 0, 1, 3)
		b.evWant(strEvent(long+"!"), 0)
		b.evWant(strEvent("!"+long), 1)
		b.evWant(strEvent("x"+long+"x"), 2)
		b.evWant(strEvent("x!"+long+"!x"), 2)
		b.evWant(strEvent("x" + long + "y"))
		b.evWant(strEvent(""))
		for _, at := range c.N[2:] {
			b.evWant(strEvent(damage(long, at)))
			b.evWant(strEvent("x" + damage(long, at) + "x"))
		}
	}}},
	{"C06", aFam{"globs on long values", 3, func(g *G, c *ACase) {
		n := hugeSize(g, 131073)
		c.N = append([]int{n, g.N(1000)}, around(g, n)...)
		c.S = []string{pick(g, hugeUnits), pick(g, []string{"wildcard", "shellstyle"})}
	}, func(c *ACase, b *aBuilt) {
		long := []rune(longText(c.S[0], c.N[0]))
		b.pats = append(b.pats, ext(c.S[1], "*?b*"), ext(c.S[1], "*?b"), ext(c.S[1], "?*b"), ext(c.S[1], "*"), ext(c.S[1], "*?*b*=*"), `{"a":["none"]}`)
		b.evWant(strEvent(string(long)), 3)
		for _, at := range c.N[2:] {
			at %= len(long)
			l, r := string(long[:at]), string(long[at:])
			b.evWant(strEvent(l+"?b"+r), func() []int {
				is := []int{0, 3}
				if strings.HasSuffix("?b"+r, "?b") {
					is = append(is, 1)
				}
				if l == "" && strings.HasSuffix("b"+r, "b") {
					is = append(is, 2)
				}
				return is
			}()...)
			b.evWant(strEvent(l+"?"+r+"b="), func() []int {
				is := []int{3, 4}
				if strings.HasPrefix(r, "b") || r == "" {
					is = append(is, 0)
				}
				return is
			}()...)
			b.evWant(strEvent("?"+l+"="+r+"b"), func() []int {
				is := []int{2, 3}
				if strings.HasPrefix(l+"=", "b") {
					is = append(is, 0)
				}
				if l == "b" && false {
					is = append(is, 1)
				}
				if strings.Contains(l, "b") {
					is = append(is, 4)
				}
				return is
			}()...)
		}
	}}},
	{"C07", aFam{"long folds", 4, func(g *G, c *ACase) {
		n := hugeSize(g, pick(g, []int{1100, 5001, 10001}))
		c.N = append([]int{n, g.R(0, 0xfff)}, around(g, n)...)
		c.S = []string{pick(g, []string{"a", "aB", "k", "sſ", "é", "ÅΩ", "ǅx", "\U00010400q", "ς", "1-a", "Ꭰ"})}
	}, func(c *ACase, b *aBuilt) {
		rng := rand.New(rand.NewPCG(uint64(c.N[1]), 7))
		long := []rune(longText(c.S[0], c.N[0]))
		b.pats = append(b.pats, ext("equals-ignore-case", string(long)), ext("equals-ignore-case", string(long)+"b"))
		mix := func(rs []rune) string {
			out := make([]rune, len(rs))
			for i, r := range rs {
				// any character of its orbit that the S pairs do not make doubtful
				out[i] = r
				if r < 128 && r != 's' && r != 'S' && r != 'k' && r != 'K' || r == 'é' {
					if rng.IntN(2) == 0 {
						out[i] = []rune(strings.ToUpper(string(r)))[0]
					} else {
						out[i] = []rune(strings.ToLower(string(r)))[0]
					}
				}
			}
			return string(out)
		}
		b.evWant(strEvent(string(long)), 0)
		for i := 0; i < 4; i++ {
			b.evWant(strEvent(mix(long)), 0)
			b.evWant(strEvent(mix(long)+"B"), 1)
		}
		b.evWant(strEvent(mix(long) + "c"))
		b.evWant(strEvent(mix(long[:len(long)-1])))
		for _, at := range c.N[2:] {
			at %= len(long)
			o := append([]rune(nil), long...)
			o[at] = '?'
			b.evWant(strEvent(mix(o)))
			b.evWant(strEvent(mix(append(append([]rune(nil), long[:at]...), long[min(len(long), at+1):]...)) + "?"))
		}
	}}},
	{"C08 C11", aFam{"large expressions", 6, func(g *G, c *ACase) {
		c.N = []int{hugeSize(g, pick(g, []int{300, 1025, 3000})), g.N(8), g.R(0, 0xfff)}
	}, func(c *ACase, b *aBuilt) {
		rng := rand.New(rand.NewPCG(uint64(c.N[2]), 7))
		n := c.N[0]
		rx := func(s string) { b.pats = append(b.pats, ext("regexp", s)) }
		yes := func(s string) { b.evWant(strEvent(s), 0) }
		no := func(s string) { b.evWant(strEvent(s)) }
		switch c.N[1] {
		case 0: // branches
			n = min(n, 1025)
			word := func(i int) string { return fmt.Sprintf("%c%d%c", 'a'+i%26, i, 'z'-i%5) }
			var ws []string
			for i := 0; i < n; i++ {
				ws = append(ws, word(i))
			}
			rx(strings.Join(ws, "|"))
			for k := 0; k < 30; k++ {
				i := rng.IntN(n)
				yes(word(i))
				no(word(i) + "0")
				no(word(i)[1:])
			}
			yes(word(0))
			yes(word(n - 1))
			no(word(n))
		case 1: // a class of many characters
			var s strings.Builder
			for i := 0; i < n; i++ {
				s.WriteRune(rune(0x4e00 + 3*i))
			}
			neg := rng.IntN(2) == 0
			up := map[bool]string{true: "^"}[neg]
			rx("x[" + up + s.String() + "]y")
			for k := 0; k < 30; k++ {
				r := rune(0x4e00 + rng.IntN(3*n+10))
				if k == 0 {
					r = rune(0x4e00 + 3*(n-1))
				}
				if in := (r-0x4e00)%3 == 0 && int(r-0x4e00)/3 < n; in != neg {
					yes("x" + string(r) + "y")
				} else {
					no("x" + string(r) + "y")
				}
			}
		case 2: // ranges
			n = min(n, 600)
			var s strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&s, "%c-%c", rune(0x4e00+10*i), rune(0x4e00+10*i+4))
			}
			rx("[" + s.String() + "]+")
			for k := 0; k < 30; k++ {
				r := rune(0x4e00 + rng.IntN(10*n+20))
				if in := (r-0x4e00)%10 <= 4 && int(r-0x4e00)/10 < n; in {
					yes(string(r))
				} else {
					no(string(r))
				}
			}
		case 3: // a long literal with a few operators
			w := longText("abcde", n)
			rx(w[:n/2] + "x*" + w[n/2:] + "(y|z)?")
			yes(w)
			yes(w[:n/2] + "xxx" + w[n/2:] + "z")
			no(w[:n/2] + "y" + w[n/2:])
			no(w[:n-1])
			no(w + "yz")
			for k := 0; k < 10; k++ {
				no(damage(w, rng.IntN(n)))
			}
		case 4: // groups in groups
			n = min(n, 257)
			rx(rep("(", n) + "ab" + rep(")", n))
			yes("ab")
			no("a")
			no("abab")
		case 5: // groups in groups, with something in each
			n = min(n, 100)
			rx(rep("(a", n) + rep("b)", n))
			yes(rep("a", n) + rep("b", n))
			no(rep("a", n-1) + rep("b", n))
			no(rep("a", n) + rep("b", n+1))
			no(rep("a", n+1) + rep("b", n-1))
		case 6: // many escapes, categories of one character
			n = min(n, 500)
			rx(rep("~.~*", n) + rep("~n", n))
			yes(rep(".*", n) + rep("\n", n))
			no(rep(".*", n) + rep("\n", n-1))
			no(rep(".*", n-1) + ".a" + rep("\n", n))
		case 7: // one atom many times
			n = min(n, []int{300, 300, 300, 1000}[rng.IntN(4)])
			w := []string{"a", "a", "a", "a", "ab", "a", "a"}
			k := rng.IntN(len(w))
			at := []string{"a", "[ab]", "(a|b)", "[a-z]", "(ab)", "(ac?)", "~p{Ll}"}[k]
			if k == 6 || k == 3 {
				n = min(n, 99)
			}
			b.mayErr = n > 99
			lo := []int{0, 1, n / 2, n - 1}[rng.IntN(4)]
			rx(fmt.Sprintf("%s{%d}", at, n))
			b.pats = append(b.pats, ext("regexp", fmt.Sprintf("%s{%d,%d}", at, lo, n)))
			more := k != 6 && n <= 300
			if more {
				b.pats = append(b.pats, ext("regexp", fmt.Sprintf("%s{%d,}", at, n)), ext("regexp", fmt.Sprintf("%s{%d,%d}!", at, lo, n)))
			}
			b.evs = b.evs[:0]
			for c := 0; c <= n+2; c++ {
				if n > 99 && c > 2 && c < n-2 && (c < lo-1 || c > lo+1) && rng.IntN(n/20) > 0 {
					continue
				}
				var is []int
				if c == n {
					is = append(is, 0)
				}
				in := c >= lo && c <= n
				if in {
					is = append(is, 1)
				}
				if c >= n && more {
					is = append(is, 2)
				}
				b.evWant(strEvent(rep(w[k], c)), is...)
				is = nil
				if in && more {
					is = append(is, 3)
				}
				b.evWant(strEvent(rep(w[k], c)+"!"), is...)
			}
		}
	}}},
	{"C08", aFam{"expressions on long values", 3, func(g *G, c *ACase) {
		n := hugeSize(g, 131073)
		c.N = append([]int{n}, around(g, n)...)
		c.S = []string{pick(g, hugeUnits)}
	}, func(c *ACase, b *aBuilt) {
		s := longText(c.S[0], c.N[0])
		n := utf8.RuneCountInString(s)
		rs := []rune(s)
		b.pats = append(b.pats, ext("regexp", ".*!"), ext("regexp", "[^!]*!?"), ext("regexp", ".*!.*"), ext("regexp", "(..)*"), ext("regexp", "("+strings.ReplaceAll(c.S[0], "~", "~~")+")*"), ext("regexp", "(.|!)+=?"))
		want := func(s string) {
			var is []int
			k := strings.Count(s, "!")
			if strings.HasSuffix(s, "!") {
				is = append(is, 0)
			}
			if k == 0 || k == 1 && strings.HasSuffix(s, "!") {
				is = append(is, 1)
			}
			if k > 0 {
				is = append(is, 2)
			}
			if utf8.RuneCountInString(s)%2 == 0 {
				is = append(is, 3)
			}
			if strings.ReplaceAll(s, c.S[0], "") == "" {
				is = append(is, 4)
			}
			if s != "" {
				is = append(is, 5)
			}
			b.evWant(strEvent(s), is...)
		}
		want(s)
		want(s + "!")
		want("!" + s)
		want(s + "=")
		for _, at := range c.N[1:] {
			at %= n
			want(string(rs[:at]) + "!" + string(rs[at:]))
			want(string(rs[:at]))
			want(string(rs[:at]) + "!" + string(rs[at:]) + "!")
		}
	}}},
	{"C17", aFam{"mass deletion", 1, func(g *G, c *ACase) {
		c.N = []int{hugeSize(g, 2000) - g.N(100), g.N(3)}
		c.Del = true
	}, func(c *ACase, b *aBuilt) {
		// every other one is deleted: see checkA
		n := c.N[0]
		for i := 0; i < n; i++ {
			switch c.N[1] {
			case 0:
				b.pats = append(b.pats, fmt.Sprintf(`{"a":[%d]}`, i))
			case 1:
				b.pats = append(b.pats, fmt.Sprintf(`{"a":["x",%d]}`, i))
			case 2:
				b.pats = append(b.pats, fmt.Sprintf(`{"a":["x"],"f%d":[{"exists":false}]}`, i%7))
			}
		}
		odd := func(ok func(i int) bool) (is []int) {
			for i := 1; i < n; i += 2 {
				if ok(i) {
					is = append(is, i)
				}
			}
			return
		}
		for k := 0; k < 12; k++ {
			b.evWant(`{"a":"x"}`, odd(func(int) bool { return c.N[1] > 0 })...)
			b.evWant(`{"a":"x","f3":1}`, odd(func(i int) bool { return c.N[1] == 1 || c.N[1] == 2 && i%7 != 3 })...)
			b.evWant(fmt.Sprintf(`{"a":[%d,%d]}`, 2*k, 2*k+1), odd(func(i int) bool { return c.N[1] < 2 && i == 2*k+1 })...)
		}
	}}},
}

func genHuge(prop string) func(g *G, idx int) any {
	var list []*hFam
	for i := range hugeFams {
		if strings.Contains(hugeFams[i].props, prop) {
			for k := 0; k < hugeFams[i].weight; k++ {
				list = append(list, &hugeFams[i])
			}
		}
	}
	return func(g *G, idx int) any {
		f := list[idx%len(list)]
		c := &ACase{Fam: "huge: " + f.name}
		f.gen(g, c)
		return c
	}
}

// addHuge gives each property concerned a sub of its own.
func addHuge() {
	names := map[string][]string{}
	for i := range hugeFams {
		for _, p := range strings.Fields(hugeFams[i].props) {
			names[p] = append(names[p], hugeFams[i].name)
		}
	}
	for p, ns := range names {
		quick := 400
		props[p].Subs = append(props[p].Subs, &Sub{Name: "huge", Quick: quick, Thorough: 20 * quick, New: func() any { return &ACase{} }, Check: checkA, Gen: genHuge(p), HangCPU: 60 * time.Second,
			Rule: "sizes up to 65537 and beyond, of shapes for which the result is known without a model (" + strings.Join(ns, ", ") + "); non-trivial: something matched, or a pattern was accepted and the texts amount to more than 200 bytes"})
	}
}
