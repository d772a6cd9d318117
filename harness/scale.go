package main

// Large cases. A generated case is scaled up in one or two of several ways: long arrays, deep nesting,
// many fields, many patterns, many values, long strings. The sizes are mostly around powers of two.

import (
	"fmt"
	"strings"
)

const (
	scArray   = iota // an array with many elements, the interesting ones far apart
	scNest           // a value within many arrays
	scChain          // a member at a deep path, in patterns and events
	scFields         // patterns with many fields
	scSingles        // many patterns for one field each
	scUnused         // members no pattern mentions, many or deeply nested
	scLong           // long strings
	scAlts           // many values for one field
	nScale
)

type scaleW [nScale]int

var scaleAll = scaleW{6, 2, 2, 5, 5, 3, 2, 3}

var scaleSizes = []int{9, 12, 15, 16, 17, 20, 31, 32, 33, 34, 40, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 400, 511, 512, 513, 600, 1000, 1025}

func scaleSize(g *G, most int) int {
	n := 0
	for n < len(scaleSizes) && scaleSizes[n] <= most {
		n++
	}
	return scaleSizes[g.N(n)]
}

// scaleUp changes patterns and events in place, and returns the patterns with those that were added. The patterns
// which were there keep their positions.
func scaleUp(g *G, w scaleW, pats []*Pat, evs []*Val, v *Vocab) []*Pat {
	if g.P(1, 2) {
		// events which are small variations of one of them
		base := evs[g.N(len(evs))]
		for i := range evs {
			if evs[i] != base && g.P(2, 3) {
				*evs[i] = *cloneVal(base)
				if g.P(1, 2) {
					tweak(g, evs[i], v)
				}
			}
		}
	}
	nest, arr := 1100, 700
	for i, n := 0, 1+g.N(2); i < n; i++ {
		how := g.W(w[:]...)
		w[how] = 0
		total := 0
		for _, x := range w {
			total += x
		}
		switch how {
		case scArray:
			for _, e := range evs {
				if g.P(3, 4) {
					growArray(g, e, v, arr)
				}
			}
			nest = 66 // both take many times as long (a recorded finding)
		case scNest:
			k := scaleSize(g, nest)
			arr = 66
			for _, e := range evs {
				if s := pick(g, slots(e, nil)); g.P(3, 4) && s.get() != nil {
					x := s.get()
					for j := 0; j < k; j++ {
						x = &Val{K: "a", E: []*Val{x}}
					}
					s.set(x)
				}
			}
		case scChain:
			chain(g, pats, evs)
		case scFields:
			if g.P(1, 3) {
				pats = fanOut(g, pats, evs)
			} else {
				manyFields(g, pats, evs)
			}
		case scSingles:
			pats = manySingles(g, pats, evs)
		case scUnused:
			for _, e := range evs {
				if g.P(3, 4) {
					manyUnused(g, e, v)
				}
			}
		case scLong:
			lengthen(g, pats, evs)
		case scAlts:
			manyAlts(g, pats, evs)
		}
		if total == 0 {
			break
		}
	}
	for _, p := range pats {
		soundPaths(p)
	}
	return pats
}

// soundPaths takes out fields whose path is part of an earlier one's, or the other way around.
func soundPaths(p *Pat) {
	if len(p.F) < 2 {
		return
	}
	type node map[string]any
	root := node{}
	var keep []PField
	for _, f := range p.F {
		n, ok := root, true
		for i, s := range f.Path {
			x, there := n[s]
			if !there {
				if i == len(f.Path)-1 {
					n[s] = true
				} else {
					nn := node{}
					n[s] = nn
					n = nn
				}
				continue
			}
			nn, inner := x.(node)
			if !inner || i == len(f.Path)-1 {
				ok = false
				break
			}
			n = nn
		}
		if ok {
			keep = append(keep, f)
		}
	}
	p.F = keep
}

// patWeight is roughly how much work it is to add a pattern.
func patWeight(p *Pat) int {
	w := 1
	for _, f := range p.F {
		n := max(1, len(f.Alts))
		for i := range f.Alts {
			n += len(f.Alts[i].L) + 8*isNondet(&f.Alts[i])
		}
		w = min(1<<20, w*n)
	}
	return w + len(p.F)
}

func patsNondet(pats []*Pat) int {
	nd := 0
	for _, p := range pats {
		for _, f := range p.F {
			for j := range f.Alts {
				nd += isNondet(&f.Alts[j])
			}
		}
	}
	return nd
}

func cloneVal(v *Val) *Val {
	out := &Val{K: v.K, S: v.S}
	for _, m := range v.M {
		out.M = append(out.M, Member{m.N, cloneVal(m.V)})
	}
	for _, e := range v.E {
		out.E = append(out.E, cloneVal(e))
	}
	return out
}

// a slot is a place in an event where a value is
type slot struct {
	in *Val
	i  int
}

func (s slot) get() *Val {
	if s.in == nil {
		return nil
	}
	if s.in.K == "o" {
		return s.in.M[s.i].V
	}
	return s.in.E[s.i]
}

func (s slot) set(v *Val) {
	if s.in.K == "o" {
		s.in.M[s.i].V = v
	} else {
		s.in.E[s.i] = v
	}
}

// slots has all places within v, and one that is none.
func slots(v *Val, out []slot) []slot {
	if out == nil {
		out = append(out, slot{})
	}
	for i := range v.M {
		out = append(out, slot{v, i})
		out = slots(v.M[i].V, out)
	}
	for i := range v.E {
		out = append(out, slot{v, i})
		out = slots(v.E[i], out)
	}
	return out
}

// tweak changes one leaf, removes a member, or renames one.
func tweak(g *G, v *Val, voc *Vocab) {
	s := pick(g, slots(v, nil))
	x := s.get()
	switch {
	case x == nil:
	case x.K != "o" && x.K != "a" && g.P(1, 2):
		s.set(voc.perturb(g, x))
	case s.in.K == "o" && g.P(1, 2):
		s.in.M = append(append([]Member(nil), s.in.M[:s.i]...), s.in.M[s.i+1:]...)
	case s.in.K == "o":
		name := pick(g, voc.names)
		for _, m := range s.in.M {
			if m.N == name {
				return
			}
		}
		s.in.M[s.i].N = name
	case s.in.K == "a":
		s.in.E = append(append([]*Val(nil), s.in.E[:s.i]...), s.in.E[s.i+1:]...)
	}
}

// growArray makes one of the event's arrays long; if it has none, a value is put into one.
func growArray(g *G, ev *Val, v *Vocab, most int) {
	var arrays []*Val
	all := slots(ev, nil)
	for _, s := range all {
		if x := s.get(); x != nil && x.K == "a" {
			arrays = append(arrays, x)
		}
	}
	var a *Val
	var objs []slot
	for _, s := range all {
		if x := s.get(); x != nil && x.K == "o" && len(x.M) > 1 {
			objs = append(objs, s)
		}
	}
	spread := len(objs) > 0 && g.P(1, 2)
	if spread {
		s := pick(g, objs)
		a = &Val{K: "a", E: []*Val{s.get()}}
		s.set(a)
	} else if len(arrays) > 0 && !g.P(1, 4) {
		a = pick(g, arrays)
	} else {
		s := pick(g, all)
		if s.get() == nil {
			return
		}
		a = &Val{K: "a", E: []*Val{s.get()}}
		s.set(a)
	}
	var special []*Val
	for _, e := range a.E {
		if len(special) < 4 {
			special = append(special, e)
		}
	}
	if len(special) > 0 && len(special) < 4 && (spread || g.P(1, 2)) {
		// split an object over two elements
		e := pick(g, special)
		if e.K == "o" && len(e.M) > 1 {
			k := g.R(1, len(e.M)-1)
			special = append(special, &Val{K: "o", M: e.M[k:]})
			e.M = e.M[:k:k]
		}
	}
	n := scaleSize(g, most)
	step := 1 << g.N(10)
	if g.P(1, 2) {
		step = pick(g, []int{8, 16, 32, 64, 128, 256, 512})
		if step < most {
			n = max(n, step+1+g.N(3))
		}
	}
	n = max(n, len(special))
	var filler *Val
	switch g.N(6) {
	case 0:
		filler = &Val{K: "o"}
	case 1:
		filler = &Val{K: "a"}
	case 2:
		filler = &Val{K: "a", E: []*Val{v.anyLeaf(g)}}
	case 3:
		filler = &Val{K: "o", M: []Member{{pick(g, v.names), v.anyLeaf(g)}}}
	case 4:
		filler = &Val{K: "o", M: []Member{{"u", v.anyLeaf(g)}}}
	default:
		filler = v.anyLeaf(g)
	}
	a.E = make([]*Val, n)
	at := g.N(n)
	for _, e := range special {
		for a.E[at] != nil {
			at = (at + 1) % n
		}
		if g.P(1, 6) {
			e = &Val{K: "a", E: []*Val{e}}
		}
		a.E[at] = e
		switch g.W(3, 1, 1) {
		case 0:
			at = (at + step) % n
		case 1:
			at = g.N(n)
		case 2:
			at = n - 1
		}
	}
	for i := range a.E {
		if a.E[i] == nil {
			a.E[i] = cloneVal(filler)
		}
	}
}

// chain puts the member of some name k objects deeper, in patterns and events.
func chain(g *G, pats []*Pat, evs []*Val) {
	var heads []string
	seen := map[string]bool{}
	for _, p := range pats {
		for _, f := range p.F {
			if !seen[f.Path[0]] {
				seen[f.Path[0]] = true
				heads = append(heads, f.Path[0])
			}
		}
	}
	if len(heads) == 0 {
		return
	}
	head := pick(g, heads)
	k := scaleSize(g, 300)
	names := make([]string, k)
	link := pick(g, []string{"n", "a", "~", head})
	for i := range names {
		names[i] = link
		if g.P(1, 8) {
			names[i] = pick(g, []string{"n", "a", "b", head})
		}
	}
	for _, p := range pats {
		for i := range p.F {
			if p.F[i].Path[0] == head && !g.P(1, 30) {
				p.F[i].Path = append(append([]string{head}, names...), p.F[i].Path[1:]...)
			}
		}
	}
	for _, e := range evs {
		for i := range e.M {
			if e.M[i].N == head && !g.P(1, 12) {
				d := k
				if g.P(1, 12) {
					d = max(0, k+g.N(3)-1)
				}
				x := e.M[i].V
				for j := d - 1; j >= 0; j-- {
					nm := link
					if j < k {
						nm = names[j]
					}
					x = &Val{K: "o", M: []Member{{nm, x}}}
				}
				e.M[i].V = x
			}
		}
	}
}

func addMembers(g *G, e *Val, ms []Member) {
	var keep []Member
	used := map[string]bool{}
	for _, m := range e.M {
		used[m.N] = true
	}
	for _, m := range ms {
		if !used[m.N] {
			keep = append(keep, m)
		}
	}
	switch g.N(3) {
	case 0:
		e.M = append(append([]Member(nil), e.M...), keep...)
	case 1:
		e.M = append(keep, e.M...)
	default:
		e.M = shuffled(g, append(append([]Member(nil), e.M...), keep...))
	}
}

// manyFields gives some patterns many more fields, and the events the members for them.
func manyFields(g *G, pats []*Pat, evs []*Val) {
	n := scaleSize(g, 130)
	pre := pick(g, []string{"A", "A", "b", "~", ""})
	if g.P(1, 2) {
		n = g.R(4, 40)
	}
	var extra []PField
	var ms []Member
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s%03d", pre, i)
		var a Alt
		x := vStr("v")
		switch g.W(12, 2, 1, 1, 1) {
		case 0:
			a = Alt{T: "s", S: "v"}
		case 1:
			a = Alt{T: "n", S: "7"}
			x = vNum("7")
		case 2:
			a = Alt{T: "exists", B: true}
		case 3:
			a = Alt{T: "exists", B: false}
			x = nil
		case 4:
			a = Alt{T: "prefix", S: "v"}
		}
		extra = append(extra, PField{Path: []string{name}, Alts: []Alt{a}})
		if x != nil {
			ms = append(ms, Member{name, x})
		}
	}
	some := false
	for i, p := range pats {
		if g.P(1, 2) || !some && i == len(pats)-1 {
			some = true
			k := n
			if g.P(1, 3) {
				k = g.R(1, n)
			}
			p.F = append(append([]PField(nil), p.F...), extra[:k]...)
		}
	}
	for _, e := range evs {
		mm := append([]Member(nil), ms...)
		for i, k := 0, g.W(6, 2, 1); i < k && len(mm) > 0; i++ {
			j := g.N(len(mm))
			switch g.N(3) {
			case 0:
				mm = append(mm[:j:j], mm[j+1:]...)
			case 1:
				mm[j].V = vStr("w")
			default:
				mm[j].V = &Val{K: "a", E: []*Val{vStr("w"), mm[j].V}}
			}
		}
		addMembers(g, e, mm)
	}
}

// fanOut gives some patterns a common run of fields, in which a value leads to several states in a few places.
func fanOut(g *G, pats []*Pat, evs []*Val) []*Pat {
	n := g.R(5, 24)
	if g.P(1, 6) {
		n = scaleSize(g, 130)
	}
	pre := pick(g, []string{"A", "b", "~", ""})
	text := pick(g, []string{"v", "vv", "vvvvv", "é", "1"})
	same := func() Alt {
		switch g.N(7) {
		case 0:
			return Alt{T: "prefix", S: text[:g.N(2)*len(text)]}
		case 1:
			return Alt{T: "wildcard", S: "*" + text}
		case 2:
			return Alt{T: "wildcard", S: text + "*"}
		case 3:
			return Alt{T: "shellstyle", S: "*"}
		case 4:
			return Alt{T: "eic", S: text}
		case 5:
			return Alt{T: "wildcard", S: "*" + text + "*"}
		}
		return Alt{T: "s", S: text}
	}
	at := map[int]int{} // how many values in which field
	product := 1
	p := g.N(n)
	step := pick(g, []int{1, 2, 3, 4, 7, 8, 8, 8, 15, 16, 32})
	for k := 0; k < 6 && product < 40; k++ {
		if at[p] == 0 {
			at[p] = g.R(2, 4)
			product *= at[p]
		}
		if g.P(1, 4) {
			p = g.N(n)
		} else {
			p = (p + step) % n
		}
	}
	var base []PField
	var ms []Member
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s%03d", pre, i)
		base = append(base, PField{Path: []string{name}, Alts: []Alt{{T: "s", S: text}}})
		ms = append(ms, Member{name, vStr(text)})
	}
	for i, k := 0, g.R(1, 6); i < k; i++ {
		var fs []PField
		for j, f := range base {
			if at[j] > 0 {
				f.Alts = nil
				for x := 0; x < at[j]; x++ {
					f.Alts = append(f.Alts, same())
				}
			}
			fs = append(fs, f)
		}
		if len(pats) > 0 && g.P(1, 3) && patWeight(pats[i%len(pats)]) < 8 {
			pats[i%len(pats)].F = append(append([]PField(nil), pats[i%len(pats)].F...), fs...)
		} else {
			pats = append(pats, &Pat{F: fs})
		}
	}
	for _, e := range evs {
		mm := append([]Member(nil), ms...)
		if g.P(1, 4) {
			mm[g.N(len(mm))].V = vStr("w")
		}
		addMembers(g, e, mm)
	}
	return pats
}

// manySingles adds patterns with a field of their own each.
func manySingles(g *G, pats []*Pat, evs []*Val) []*Pat {
	n := scaleSize(g, 300)
	pre := pick(g, []string{"A", "b", "~", "m", ""})
	var base *Pat
	if len(pats) > 0 && g.P(1, 3) {
		base = pick(g, pats) // all of them have the fields of this one too
		if patWeight(base) > 12 {
			base = nil
		}
	}
	sep := g.P(1, 3) // one identifier's worth of paths below a common name
	path := func(i int) []string {
		name := fmt.Sprintf("%s%03d", pre, i)
		if sep {
			return []string{pre + "s", name}
		}
		return []string{name}
	}
	var ms []Member
	w := g.W(3, 1)
	for i := 0; i < n; i++ {
		a := Alt{T: "s", S: "v"}
		x := vStr("v")
		if w == 1 {
			a.S, x = "w", vStr("v") // patterns that never match
		}
		switch g.W(8, 1, 1, 1) {
		case 1:
			a = Alt{T: "exists", B: true}
		case 2:
			a = Alt{T: "exists", B: false}
		case 3:
			a, x = Alt{T: "n", S: fmt.Sprint(i)}, vNum(fmt.Sprint(i))
		}
		p := &Pat{F: []PField{{Path: path(i), Alts: []Alt{a}}}}
		if base != nil {
			p.F = append(p.F, base.F...)
		} else if i > 0 && g.P(1, 8) {
			j := g.N(i)
			b := Alt{T: "s", S: "v"}
			if g.P(1, 3) {
				b = Alt{T: "exists", B: false}
			}
			p.F = append(p.F, PField{Path: path(j), Alts: []Alt{b}})
		}
		pats = append(pats, p)
		ms = append(ms, Member{path(i)[len(path(i))-1], x})
	}
	drop := g.N(4)
	for _, e := range evs {
		mm := append([]Member(nil), ms...)
		for i := 0; i < drop && len(mm) > 0; i++ {
			j := g.N(len(mm))
			mm = append(mm[:j:j], mm[j+1:]...)
		}
		if g.P(1, 6) {
			mm = mm[:g.N(len(mm)+1)]
		}
		if sep {
			mm = []Member{{pre + "s", &Val{K: "o", M: shuffled(g, mm)}}}
		}
		addMembers(g, e, mm)
	}
	return pats
}

// manyUnused adds members which no pattern asks for: many of them, or deeply nested ones.
func manyUnused(g *G, e *Val, v *Vocab) {
	objs := []*Val{e}
	for _, s := range slots(e, nil) {
		if x := s.get(); x != nil && x.K == "o" {
			objs = append(objs, x)
		}
	}
	o := pick(g, objs)
	if g.B() {
		n := scaleSize(g, 600)
		var ms []Member
		for i := 0; i < n; i++ {
			ms = append(ms, Member{fmt.Sprintf("u%d", i), v.anyLeaf(g)})
		}
		addMembers(g, o, ms)
		return
	}
	addMembers(g, o, []Member{{"u", deepVal(g, v.anyLeaf(g), scaleSize(g, 1100), v.names)}})
}

// deepVal wraps x into k levels of arrays and objects.
func deepVal(g *G, x *Val, k int, names []string) *Val {
	how := g.N(4)
	for i := 0; i < k; i++ {
		obj := how == 1 || how == 2 && i%2 == 0 || how == 3 && g.B()
		if obj {
			nm := "n"
			if len(names) > 0 {
				nm = pick(g, names)
			}
			x = &Val{K: "o", M: []Member{{nm, x}}}
			if g.P(1, 10) {
				x.M = append(x.M, Member{nm + "2", vNum("1")})
			}
		} else {
			x = &Val{K: "a", E: []*Val{x}}
			if g.P(1, 10) {
				x.E = append(x.E, vStr("]"))
			}
		}
	}
	return x
}

// lengthen puts a long text before or after all strings.
func lengthen(g *G, pats []*Pat, evs []*Val) {
	unit := pick(g, []string{"a", "x", "é", "中", "ab", "\U0001f600", "\"", "1"})
	n := scaleSize(g, 1100)
	front := g.P(2, 3)
	if !front {
		n = scaleSize(g, 300)
	}
	long := strings.Repeat(unit, n/len(unit)+1)
	long2 := long
	if !front {
		long2 = ""
	} else {
		long = ""
	}
	lit := func(s string) string { return long2 + s + long }
	seen := map[*Alt]bool{}
	for _, p := range pats {
		for i := range p.F {
			for j := range p.F[i].Alts {
				a := &p.F[i].Alts[j]
				if seen[a] {
					continue // patterns may share values
				}
				seen[a] = true
				switch a.T {
				case "s", "wildcard", "shellstyle", "eic":
					a.S = lit(a.S)
				case "prefix":
					a.S = long2 + a.S
				case "anything-but":
					a.L = append([]string(nil), a.L...)
					for k := range a.L {
						a.L[k] = lit(a.L[k])
					}
				}
			}
		}
	}
	for _, e := range evs {
		done := map[*Val]bool{}
		for _, s := range slots(e, nil) {
			if x := s.get(); x != nil && x.K == "s" && !done[x] {
				done[x] = true
				switch g.W(12, 1) {
				case 0:
					x.S = lit(x.S)
				case 1:
					x.S = lit(x.S)
					if len(x.S) > 0 && x.S[0] < 0x80 {
						x.S = x.S[1:]
					}
				}
			}
		}
	}
}

// manyAlts gives one field many values.
func manyAlts(g *G, pats []*Pat, evs []*Val) {
	var fs []*PField
	for _, p := range pats {
		for i := range p.F {
			f := &p.F[i]
			if len(f.Alts) > 0 && f.Alts[0].T != "exists" && f.Alts[0].T != "regexp" {
				fs = append(fs, f)
			}
		}
	}
	if len(fs) == 0 {
		return
	}
	f := pick(g, fs)
	n := scaleSize(g, 300)
	for _, p := range pats {
		for i := range p.F {
			if f == &p.F[i] {
				// the values of several fields are combined (a recorded finding)
				n = min(n, max(9, 3000/patWeight(p)))
			}
		}
	}
	pre := pick(g, []string{"k", "", "é", "a"})
	val := func(i int) string { return fmt.Sprintf("%s%d", pre, i) }
	if f.Alts[0].T == "anything-but" {
		a := &f.Alts[0]
		a.L = append([]string(nil), a.L...)
		for i := 0; i < n; i++ {
			a.L = append(a.L, val(i))
		}
	} else {
		nums := g.P(1, 4)
		f.Alts = append([]Alt(nil), f.Alts...)
		for i := 0; i < n; i++ {
			if nums {
				f.Alts = append(f.Alts, Alt{T: "n", S: fmt.Sprint(i * 3)})
			} else {
				f.Alts = append(f.Alts, Alt{T: "s", S: val(i)})
			}
		}
		f.Alts = shuffled(g, f.Alts)
	}
	// some leaves get one of the values
	for _, e := range evs {
		for _, s := range slots(e, nil) {
			if x := s.get(); x != nil && x.K != "o" && x.K != "a" && g.P(1, 3) {
				if g.P(1, 6) {
					s.set(vNum(fmt.Sprint(3 * g.N(n))))
				} else {
					s.set(vStr(val(g.N(n + 2))))
				}
			}
		}
	}
}
