package main

// C22: fields that come from nowhere but a Flattener.

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	quamina "quamina.net/go/quamina/v2"
)

// FLField is one field: a leaf at a path in elements of arrays, or (Raw, in base64) a string of any bytes.
type FLField struct {
	Path  []string `json:"path"`
	V     *Val     `json:"v,omitempty"`
	Raw   *string  `json:"raw,omitempty"`
	Trail [][2]int `json:"trail,omitempty"`
}

// FLCase: patterns, and lists of fields. What the Flattener is given as an event is the number of a list.
type FLCase struct {
	Pats []HPat      `json:"pats"`
	Evs  [][]FLField `json:"evs"`
	Del  bool        `json:"del,omitempty"`
	Seed int         `json:"seed"`
}

func (f *FLField) field() quamina.Field {
	out := quamina.Field{Path: []byte(strings.Join(f.Path, "\n"))}
	for _, t := range f.Trail {
		out.ArrayTrail = append(out.ArrayTrail, quamina.ArrayPos{Array: int32(t[0]), Pos: int32(t[1])})
	}
	switch {
	case f.Raw != nil:
		out.Val, _ = base64.StdEncoding.DecodeString(*f.Raw)
	case f.V.K == "s":
		out.Val = []byte(`"` + f.V.S + `"`)
	case f.V.K == "n":
		out.Val, out.IsNumber = []byte(f.V.S), true
	case f.V.K == "t":
		out.Val = []byte("true")
	case f.V.K == "f":
		out.Val = []byte("false")
	default:
		out.Val = []byte("null")
	}
	return out
}

// listFlattener looks up the fields of an event.
type listFlattener struct{ lists [][]FLField }

func (f *listFlattener) Copy() quamina.Flattener { return &listFlattener{f.lists} }
func (f *listFlattener) Flatten(event []byte, _ quamina.SegmentsTreeTracker) ([]quamina.Field, error) {
	n, err := strconv.Atoi(string(event))
	if err != nil {
		return nil, err
	}
	var out []quamina.Field
	for i := range f.lists[n] {
		out = append(out, f.lists[n][i].field())
	}
	return out, nil
}

func checkFields(c any, r *Rec) error {
	m := c.(*FLCase)
	opts := []quamina.Option{quamina.WithFlattener(&listFlattener{m.Evs})}
	if m.Del {
		opts = append(opts, quamina.WithPatternDeletion(true))
	}
	q := mustNew(opts...)
	k := q.Copy()
	for i, p := range m.Pats {
		if err := q.AddPattern(fmt.Sprintf("P%d", i), p.Text); err != nil {
			return fmt.Errorf("AddPattern(%s): unexpected error %v", clip(p.Text, 400), err)
		}
	}
	for e, fields := range m.Evs {
		ix := &evIndex{byPath: map[string][]Leaf{}}
		raw := false
		for i := range fields {
			f := &fields[i]
			if f.Raw != nil {
				raw = true
				continue
			}
			path := strings.Join(f.Path, pathSep)
			ix.byPath[path] = append(ix.byPath[path], Leaf{Path: path, V: f.V, Trail: f.Trail})
		}
		want := map[string]Tri{}
		for i := range m.Pats {
			x := fmt.Sprintf("P%d", i)
			want[x] = patMatches(m.Pats[i].P, ix)
			if raw {
				// fields with values that aren't JSON come on top, so of what the others decide only this is certain
				ok := want[x] == Yes
				for _, f := range m.Pats[i].P.F {
					ok = ok && !(len(f.Alts) > 0 && f.Alts[0].T == "exists" && !f.Alts[0].B)
				}
				if !ok {
					want[x] = Unknown
				}
			}
		}
		var first string
		for n, x := range []*quamina.Quamina{q, k, q} {
			xs, err := x.MatchesForEvent([]byte(strconv.Itoa(e)))
			if err != nil {
				return fmt.Errorf("list %d: %v", e, err)
			}
			got, err := xset(xs)
			if err != nil {
				return err
			}
			missing, extra := compare(got, want)
			if len(missing)+len(extra) > 0 {
				return fmt.Errorf("list %d (%s): got %s; missing %v; must not match %v", e, clip(jsonOf(fields), 900), xnames(got), missing, extra)
			}
			if n == 0 {
				first = xnames(got)
			} else if first != xnames(got) {
				return fmt.Errorf("list %d (%s): got %s, and then %s", e, clip(jsonOf(fields), 900), first, xnames(got))
			}
			r.NonTrivialIf(len(got) > 0)
			r.LabelIf(len(got) > 0 && len(fields) == 0, "match of no fields")
			r.LabelIf(len(got) > 0 && raw, "match with bytes that aren't JSON")
		}
	}
	return nil
}

// forest makes arrays within elements of each other, and a function for the trail of a place in one of them.
func forest(g *G) func() [][2]int {
	n := g.N(5)
	type arr struct{ id, parent, pos int }
	arrs := make([]arr, n)
	used := map[int]bool{}
	for i := range arrs {
		id := i
		switch g.N(4) {
		case 0:
			id = g.N(1<<32) - 1<<31
		case 1:
			id = pick(g, []int{-1, 1 << 15, 1 << 16, 1<<16 + 1, 1 << 24, 1<<31 - 1, -1 << 31, 255, 256, 257})
		}
		for used[id] {
			id = g.N(1<<32) - 1<<31
		}
		used[id] = true
		arrs[i] = arr{id, g.N(i+1) - 1, g.N(3)}
	}
	base := pick(g, []int{0, 0, 1, 254, 1<<16 - 2, 1<<31 - 4})
	return func() [][2]int {
		if n == 0 || g.P(1, 4) {
			return nil
		}
		i := g.N(n)
		out := [][2]int{{arrs[i].id, base + g.N(3)}}
		for p := arrs[i].parent; p >= 0; p = arrs[p].parent {
			out = append([][2]int{{arrs[p].id, base + arrs[i].pos}}, out...)
			i = p
		}
		return out
	}
}

func genFields(prof Profile, rawPct int) func(g *G, idx int) any {
	return func(g *G, idx int) any {
		p := prof
		v := genVocab(g, &p)
		c := &FLCase{Seed: g.N(1 << 16), Del: g.P(1, 4)}
		var pats []*Pat
		for i, n := 0, g.R(p.Pats[0], p.Pats[1]); i < n; i++ {
			pats = append(pats, v.pattern(g))
		}
		for _, pat := range pats {
			c.Pats = append(c.Pats, HPat{g.patText(pat, genStyle(g), true), pat})
		}
		for i, n := 0, g.R(p.Evs[0], p.Evs[1]); i < n; i++ {
			list := []FLField{}
			trail := forest(g)
			for k, kn := 0, g.N(4); k < kn; k++ {
				for _, l := range leaves(v.event(g, pats)) {
					if l.V.K == "n" && len(l.V.S) > 300 {
						continue
					}
					list = append(list, FLField{Path: strings.Split(l.Path, pathSep), V: l.V, Trail: trail()})
				}
			}
			if g.P(1, 5) && len(list) > 0 {
				list = append(list, list[g.N(len(list))])
			}
			for g.P(rawPct, 100) && len(list) > 0 {
				f := list[g.N(len(list))]
				var b []byte
				if f.V != nil && f.V.K == "s" && g.B() {
					b = []byte(f.V.S)
				}
				for j, jn := 0, g.N(4); j < jn; j++ {
					at := g.N(len(b) + 1)
					x := byte(g.N(256))
					if g.B() {
						x = pick(g, []byte{0, '"', 0x7f, 0x80, 0xc0, 0xf4, 0xf5, 0xf6, 0xf7, 0xff})
					}
					b = append(b[:at:at], append([]byte{x}, b[at:]...)...)
				}
				b = append(append([]byte{'"'}, b...), '"')
				s := base64.StdEncoding.EncodeToString(b)
				list = append(list, FLField{Path: f.Path, Raw: &s, Trail: f.Trail})
			}
			for j := range list {
				o := g.N(len(list))
				list[j], list[o] = list[o], list[j]
			}
			c.Evs = append(c.Evs, list)
		}
		return c
	}
}

func jsonOf(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
