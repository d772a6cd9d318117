package main

// The reference model: events, patterns and the matching relation, written from the
// documentation and independent of quamina's code.

import (
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Val is a JSON value. K: 'o' object, 'a' array, 's' string, 'n' number, 't','f','z' literals.
type Val struct {
	K string   `json:"k"`
	S string   `json:"s,omitempty"` // string content, or number spelling
	M []Member `json:"m,omitempty"`
	E []*Val   `json:"e,omitempty"`
}

type Member struct {
	N string `json:"n"`
	V *Val   `json:"v"`
}

func vStr(s string) *Val { return &Val{K: "s", S: s} }
func vNum(s string) *Val { return &Val{K: "n", S: s} }

// pathSep separates the names of a path in the model; no name can contain it, because names are UTF-8.
const pathSep = "\xff"

// Leaf is one field of an event.
type Leaf struct {
	Path  string // names joined by pathSep
	V     *Val
	Trail [][2]int // (array id, position)
}

func leaves(root *Val) []Leaf {
	var out []Leaf
	arrays := 0
	var walk func(v *Val, path string, depth int, trail [][2]int)
	walk = func(v *Val, path string, depth int, trail [][2]int) {
		switch v.K {
		case "o":
			for _, m := range v.M {
				p := m.N
				if depth > 0 {
					p = path + pathSep + m.N
				}
				walk(m.V, p, depth+1, trail)
			}
		case "a":
			arrays++
			id := arrays
			for i, e := range v.E {
				t := append(append([][2]int(nil), trail...), [2]int{id, i})
				walk(e, path, depth, t)
			}
		default:
			out = append(out, Leaf{path, v, trail})
		}
	}
	walk(root, "", 0, nil)
	return out
}

// Alt is one entry of a pattern's value list.
type Alt struct {
	T  string   `json:"t"` // s n true false null prefix exists anything-but wildcard shellstyle eic regexp
	S  string   `json:"s,omitempty"`
	L  []string `json:"l,omitempty"`
	B  bool     `json:"b,omitempty"`
	RX *RNode   `json:"rx,omitempty"`
}

type PField struct {
	Path []string `json:"path"`
	Alts []Alt    `json:"alts"`
}

func (f *PField) key() string { return strings.Join(f.Path, pathSep) }

type Pat struct {
	F []PField `json:"f"`
}

// tri-valued truth
type Tri int8

const (
	No Tri = iota
	Unknown
	Yes
)

func triOf(b bool) Tri {
	if b {
		return Yes
	}
	return No
}

func triMax(a, b Tri) Tri {
	if a > b {
		return a
	}
	return b
}

func globMatch(toks []globTok, s []rune) bool {
	// classic two-row DP over the set of reachable token positions
	n := len(toks)
	cur := make([]bool, n+1)
	closure := func(set []bool) {
		for i := 0; i < n; i++ {
			if set[i] && toks[i].star {
				set[i+1] = true
			}
		}
	}
	cur[0] = true
	closure(cur)
	for _, r := range s {
		next := make([]bool, n+1)
		for i := 0; i < n; i++ {
			if !cur[i] {
				continue
			}
			if toks[i].star {
				next[i] = true
			} else if toks[i].r == r {
				next[i+1] = true
			}
		}
		closure(next)
		cur = next
	}
	return cur[n]
}

type globTok struct {
	star bool
	r    rune
}

func wildcardToks(s string) []globTok {
	var out []globTok
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == '\\' && i+1 < len(rs):
			i++
			out = append(out, globTok{r: rs[i]})
		case rs[i] == '*':
			out = append(out, globTok{star: true})
		default:
			out = append(out, globTok{r: rs[i]})
		}
	}
	return out
}

func shellToks(s string) []globTok {
	var out []globTok
	for _, r := range s {
		out = append(out, globTok{star: r == '*', r: r})
	}
	return out
}

// caseOrbit lists the characters related to r by Unicode simple case folding, r excluded.
func caseOrbit(r rune) []rune {
	var out []rune
	for c := unicode.SimpleFold(r); c != r; c = unicode.SimpleFold(c) {
		out = append(out, c)
	}
	return out
}

// eicRune: does event character c match pattern character p?
func eicRune(p, c rune) Tri {
	if p == c {
		return Yes
	}
	orb := caseOrbit(p)
	in := false
	for _, o := range orb {
		if o == c {
			in = true
		}
	}
	if !in {
		return No
	}
	// CaseFolding.txt gives some pairs under status S rather than C; those are left open.
	if sRecord(p) || sRecord(c) {
		return Unknown
	}
	return Yes
}

// sRecord lists the characters whose simple folding has status S in CaseFolding.txt, and their targets.
func sRecord(r rune) bool {
	switch {
	case r == 0x1e9e || r == 0xdf:
		return true
	case r >= 0x1f80 && r <= 0x1faf:
		return true
	case r == 0x1fb3 || r == 0x1fbc || r == 0x1fc3 || r == 0x1fcc || r == 0x1ff3 || r == 0x1ffc:
		return true
	case r == 0x1fd3 || r == 0x390 || r == 0x1fe3 || r == 0x3b0 || r == 0xfb05 || r == 0xfb06:
		return true
	}
	return false
}

func eicMatch(p, s string) Tri {
	a, b := []rune(p), []rune(s)
	if len(a) != len(b) {
		return No
	}
	res := Yes
	for i := range a {
		t := eicRune(a[i], b[i])
		if t < res {
			res = t
		}
		if res == No {
			return No
		}
	}
	return res
}

func numEq(a, b string) Tri {
	x, e1 := strconv.ParseFloat(a, 64)
	y, e2 := strconv.ParseFloat(b, 64)
	if e1 != nil || e2 != nil || math.IsInf(x, 0) || math.IsInf(y, 0) {
		return Unknown
	}
	return triOf(x == y)
}

// altMatches decides one alternative (other than exists) against a leaf.
func altMatches(a *Alt, v *Val) Tri {
	switch a.T {
	case "true":
		return triOf(v.K == "t")
	case "false":
		return triOf(v.K == "f")
	case "null":
		return triOf(v.K == "z")
	case "n":
		if v.K != "n" {
			return No
		}
		return numEq(a.S, v.S)
	}
	if v.K != "s" {
		if a.T == "anything-but" {
			return Unknown // documented for string values only
		}
		return No
	}
	switch a.T {
	case "s":
		return triOf(a.S == v.S)
	case "prefix":
		return triOf(strings.HasPrefix(v.S, a.S))
	case "anything-but":
		for _, s := range a.L {
			if s == v.S {
				return No
			}
		}
		return Yes
	case "wildcard":
		return triOf(globMatch(wildcardToks(a.S), []rune(v.S)))
	case "shellstyle":
		return triOf(globMatch(shellToks(a.S), []rune(v.S)))
	case "eic":
		return eicMatch(a.S, v.S)
	case "regexp":
		return triOf(a.RX.matches([]rune(v.S)))
	}
	panic("unknown alt " + a.T)
}

func conflict(a, b [][2]int) bool {
	for _, x := range a {
		for _, y := range b {
			if x[0] == y[0] && x[1] != y[1] {
				return true
			}
		}
	}
	return false
}

type evIndex struct {
	root   *Val
	byPath map[string][]Leaf
	all    []Leaf
}

func indexEvent(v *Val) *evIndex {
	ix := &evIndex{root: v, byPath: map[string][]Leaf{}}
	ix.all = leaves(v)
	for _, l := range ix.all {
		ix.byPath[l.Path] = append(ix.byPath[l.Path], l)
	}
	return ix
}

// patMatches is the matching relation of the documentation.
func patMatches(p *Pat, ix *evIndex) Tri {
	type cand struct {
		l Leaf
		t Tri
	}
	var need [][]cand
	for i := range p.F {
		f := &p.F[i]
		ls := ix.byPath[f.key()]
		if len(f.Alts) == 0 {
			return No
		}
		if f.Alts[0].T == "exists" {
			if !f.Alts[0].B {
				if len(ls) > 0 {
					return No
				}
				continue
			}
			if len(ls) == 0 {
				return No
			}
			var cs []cand
			for _, l := range ls {
				cs = append(cs, cand{l, Yes})
			}
			need = append(need, cs)
			continue
		}
		var cs []cand
		for _, l := range ls {
			best := No
			for j := range f.Alts {
				best = triMax(best, altMatches(&f.Alts[j], l.V))
				if best == Yes {
					break
				}
			}
			if best != No {
				cs = append(cs, cand{l, best})
			}
		}
		if len(cs) == 0 {
			return No
		}
		need = append(need, cs)
	}
	sort.SliceStable(need, func(i, j int) bool { return len(need[i]) < len(need[j]) })
	steps := 0
	var try func(i int, chosen []Leaf, floor Tri) bool
	try = func(i int, chosen []Leaf, floor Tri) bool {
		steps++
		if steps > 200000 {
			panic(modelTooDeep{})
		}
		if i == len(need) {
			return true
		}
	next:
		for _, c := range need[i] {
			if c.t < floor {
				continue
			}
			for _, o := range chosen {
				if conflict(o.Trail, c.l.Trail) {
					continue next
				}
			}
			if try(i+1, append(chosen, c.l), floor) {
				return true
			}
		}
		return false
	}
	if try(0, nil, Yes) {
		return Yes
	}
	if try(0, nil, Unknown) {
		return Unknown
	}
	return No
}

type modelTooDeep struct{}
