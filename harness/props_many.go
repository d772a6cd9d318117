package main

// C27: how long a match takes when there are many patterns.

import (
	"fmt"
	"os"
	"runtime"
	"slices"
	"strings"
	"time"

	quamina "quamina.net/go/quamina/v2"
)

// LatCase: the patterns number 0 to Many-1 are written from the other fields; so are the events, each of which is
// matched by at most one of the patterns. An instance
// with few patterns has just those that match something, and some of the first ones.
type LatCase struct {
	Kind    string   `json:"kind"`
	Shape   string   `json:"shape"`
	Few     int      `json:"few"`
	Many    int      `json:"many"`
	Common  string   `json:"common,omitempty"` // all values start with it
	Letters string   `json:"letters"`
	Len     int      `json:"len"`
	Hits    []int    `json:"hits"`
	Misses  int      `json:"misses"`
	Members int      `json:"members,omitempty"` // of no interest to any pattern
	Del     bool     `json:"del,omitempty"`
	Speed   bool     `json:"speed,omitempty"`
	Wild    []string `json:"wild,omitempty"` // patterns that match nothing, in between; on the same path if built for speed
}

// word number i: all of the same length, all different.
func (c *LatCase) word(i int) string {
	var b strings.Builder
	b.WriteString(c.Common)
	l := []rune(c.Letters)
	for k := 0; k < c.Len; k++ {
		b.WriteRune(l[hash64(fmt.Sprint(k/3, i/7, c.Len))%uint64(len(l))])
	}
	for k := 1; k <= c.Many*2; k *= len(l) {
		b.WriteRune(l[i/k%len(l)])
	}
	return b.String()
}

func (c *LatCase) alt(i int) string {
	kind := c.Kind
	if kind == "mixed" {
		kind = []string{"s", "n", "prefix", "fold", "s"}[i%5]
	}
	switch kind {
	case "n":
		return c.num(i)
	case "prefix":
		return `{"prefix":` + js(c.word(i)) + `}`
	case "fold":
		return `{"equals-ignore-case":` + js(strings.ToUpper(c.word(i))) + `}`
	case "exists":
		return `{"exists":true}`
	case "wildcard":
		return `{"wildcard":` + js(c.word(i)+"*.") + `}`
	}
	return js(c.word(i))
}

func (c *LatCase) num(i int) string {
	if c.Len%2 == 0 {
		return fmt.Sprint(i * (c.Len*c.Len*c.Len + 1))
	}
	return fmt.Sprintf("%d.%d", i%2*1000-i, i%7*2+1)
}

// val is a value in an event that just alt(i) accepts.
func (c *LatCase) val(i int) string {
	switch {
	case c.Kind == "n" || c.Kind == "mixed" && i%5 == 1:
		return c.num(i)
	case c.Kind == "prefix" || c.Kind == "mixed" && i%5 == 2:
		return js(c.word(i) + "!!")
	case c.Kind == "wildcard":
		return js(c.word(i) + "!.")
	}
	return js(c.word(i))
}

func (c *LatCase) pattern(i int) string {
	switch c.Shape {
	case "own path":
		return fmt.Sprintf(`{"p%d":[%s]}`, i, c.alt(i))
	case "own object":
		return fmt.Sprintf(`{"p%d":{"a":[%s]}}`, i, c.alt(i))
	case "in one object":
		return fmt.Sprintf(`{"o":{"p%d":[%s]}}`, i, c.alt(i))
	case "the same first":
		return fmt.Sprintf(`{"a":["x"],"b":[%s]}`, c.alt(i))
	case "the same last":
		return fmt.Sprintf(`{"a":[%s],"b":["x"]}`, c.alt(i))
	case "own second path":
		return fmt.Sprintf(`{"a":["x"],"p%d":[%s]}`, i, c.alt(i))
	}
	return fmt.Sprintf(`{"a":[%s]}`, c.alt(i))
}

func (c *LatCase) wild() (out []string) {
	for _, w := range c.Wild {
		if !c.Speed {
			out = append(out, `{"w":[`+w+`]}`)
			continue
		}
		switch c.Shape {
		case "one path":
			out = append(out, `{"a":[`+w+`]}`)
		case "the same first":
			out = append(out, `{"a":["x"],"b":[`+w+`]}`)
		case "the same last":
			out = append(out, `{"b":["x"],"a":[`+w+`]}`)
		}
	}
	return
}

func (c *LatCase) event(i int) string {
	var b strings.Builder
	b.WriteByte('{')
	if len(c.Wild) > 0 && !c.Speed {
		b.WriteString(`"w":"a0xx1ab",`)
	}
	for k := 0; k < c.Members; k++ {
		fmt.Fprintf(&b, `"m%d":["",{"n":%d}],`, k, i)
	}
	v := c.val(i)
	switch c.Shape {
	case "own path":
		fmt.Fprintf(&b, `"p%d":%s`, i, v)
	case "own object":
		fmt.Fprintf(&b, `"p%d":{"b":1,"a":%s}`, i, v)
	case "in one object":
		fmt.Fprintf(&b, `"o":{"a":1,"p%d":%s}`, i, v)
	case "the same first":
		fmt.Fprintf(&b, `"b":%s,"a":"x"`, v)
	case "the same last":
		fmt.Fprintf(&b, `"b":"x","a":%s`, v)
	case "own second path":
		fmt.Fprintf(&b, `"p%d":%s,"a":"x"`, i, v)
	default:
		fmt.Fprintf(&b, `"a":%s`, v)
	}
	return b.String() + "}"
}

func (c *LatCase) build(all bool) (*quamina.Quamina, error) {
	var is []int
	for i := 0; i < c.Many; i++ {
		if all || i < c.Few-len(c.Hits) || slices.Contains(c.Hits, i) {
			is = append(is, i)
		}
	}
	var opts []quamina.Option
	if c.Del {
		opts = append(opts, quamina.WithPatternDeletion(true))
	}
	q := mustNew(opts...)
	if c.Speed {
		if err := q.SetMatcherBuildMode(quamina.BuiltForSpeed); err != nil {
			return nil, err
		}
	}
	if c.Shape == "one list" {
		var b strings.Builder
		for k, i := range is {
			if k > 0 {
				b.WriteByte(',')
			}
			b.WriteString(c.alt(i))
		}
		return q, q.AddPattern(0, `{"a":[`+b.String()+`]}`)
	}
	for k, i := range is {
		for w, s := range c.wild() {
			if k == w*(len(is)-1)/max(1, len(c.Wild)-1) {
				if err := q.AddPattern("wild", s); err != nil {
					return nil, fmt.Errorf("AddPattern(%s): unexpected error %v", s, err)
				}
			}
		}
		if err := q.AddPattern(i, c.pattern(i)); err != nil {
			return nil, fmt.Errorf("AddPattern(%s): unexpected error %v", c.pattern(i), err)
		}
	}
	return q, nil
}

// lat is the least time a match of each of the events takes, and what it allocates.
func lat(q *quamina.Quamina, evs [][]byte, batches int) (time.Duration, int64, error) {
	run := func() error {
		for _, e := range evs {
			if _, err := q.MatchesForEvent(e); err != nil {
				return err
			}
		}
		return nil
	}
	for i := 0; i < 4; i++ {
		if err := run(); err != nil {
			return 0, 0, err
		}
	}
	least := time.Hour
	for b := 0; b < batches; b++ {
		t0, k := time.Now(), 0
		for k == 0 || time.Since(t0) < 300*time.Microsecond {
			_ = run()
			k++
		}
		least = min(least, time.Since(t0)/time.Duration(k*len(evs)))
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	for i := 0; i < 10; i++ {
		_ = run()
	}
	runtime.ReadMemStats(&m1)
	return least, int64(m1.TotalAlloc-m0.TotalAlloc) / int64(10*len(evs)), nil
}

const (
	latTimes = 4
	latPlus  = 2 * time.Microsecond
)

func checkLat(c any, r *Rec) error {
	m := c.(*LatCase)
	var evs [][]byte
	for _, h := range m.Hits {
		evs = append(evs, []byte(m.event(h)))
	}
	for k := 0; k < m.Misses; k++ {
		evs = append(evs, []byte(m.event(m.Many+k)))
	}
	few, err := m.build(false)
	if err != nil {
		return err
	}
	many, err := m.build(true)
	if err != nil {
		return err
	}
	for _, q := range []*quamina.Quamina{few, many} {
		for i, e := range evs {
			want := "[]"
			if i < len(m.Hits) {
				want = fmt.Sprintf("[%d]", m.Hits[i])
				if m.Shape == "one list" {
					want = "[0]"
				}
			}
			xs, err := q.MatchesForEvent(e)
			if err != nil || fmt.Sprint(xs) != want {
				return fmt.Errorf("%+v: event %s: got %v %v, want %s", *m, e, xs, err, want)
			}
		}
	}
	var t0, t1 time.Duration
	for try := 0; ; try++ {
		var a0, a1 int64
		if t0, a0, err = lat(few, evs, 5<<try); err != nil {
			return err
		}
		if t1, a1, err = lat(many, evs, 5<<try); err != nil {
			return err
		}
		if os.Getenv("QC_LAT") != "" {
			fmt.Fprintf(os.Stderr, "LAT %.2f %v %v alloc %d %d %s %s %d %v\n", float64(t1)/float64(t0), t0, t1, a0, a1, m.Kind, m.Shape, m.Many, m.Del)
		}
		slow, alloc := t1 > latTimes*t0+latPlus, a1 > 2*a0+1000
		if !slow && !alloc {
			break
		}
		if try == 4 {
			if slow {
				return fmt.Errorf("%+v: with %d patterns a match takes %v; with %d it takes %v", *m, m.Few, t0, m.Many, t1)
			}
			return fmt.Errorf("%+v: with %d patterns a match allocates %d bytes; with %d it allocates %d", *m, m.Few, a0, m.Many, a1)
		}
	}
	// a copy is cheap, too
	cp := func(q *quamina.Quamina) time.Duration {
		least := time.Hour
		for i := 0; i < 30; i++ {
			s := time.Now()
			k := q.Copy()
			_, _ = k.MatchesForEvent(evs[i%len(evs)])
			least = min(least, time.Since(s))
		}
		return least
	}
	for try := 0; ; try++ {
		c0, c1 := cp(few), cp(many)
		if c1 <= latTimes*c0+3*latPlus {
			break
		}
		if try == 6 {
			return fmt.Errorf("%+v: with %d patterns a copy and a match with it take %v; with %d they take %v", *m, m.Few, c0, m.Many, c1)
		}
	}
	r.Label(m.Kind)
	r.Label(m.Shape)
	r.NonTrivialIf(m.Many >= 50*m.Few)
	return nil
}

func genLat(g *G, idx int) any {
	kinds := []string{"s", "n", "prefix", "fold", "mixed", "exists"}
	shapes := []string{"one path", "own path", "own object", "in one object", "the same first", "the same last", "own second path", "one list"}
	c := &LatCase{Kind: kinds[idx%len(kinds)], Shape: shapes[idx/len(kinds)%len(shapes)], Few: g.R(10, 30), Letters: pick(g, []string{"ab", "abcdefghijklmnopqrstuvwxyz", "0123456789", "aéxΩ日", "0189.-"}), Len: g.W(2, 1, 1) * g.R(0, 15), Misses: g.R(1, 4), Del: g.P(1, 3)}
	if c.Kind == "exists" {
		c.Shape = pick(g, []string{"own path", "own object", "in one object", "own second path"})
	}
	c.Many = c.Few * g.R(50, 400)
	if c.Kind == "fold" && strings.ContainsAny(c.Letters, "abéx") {
		c.Many = c.Few * 50
		c.Len = min(c.Len, 8)
	}
	if strings.Contains(c.Shape, "own") || c.Shape == "in one object" {
		// an addition takes as long as there are paths
		c.Few = g.R(10, 15)
		c.Many = c.Few * g.R(50, 130)
	}
	if g.P(1, 3) {
		c.Common = strings.Repeat(string([]rune(c.Letters)[0]), g.R(1, 30))
	}
	if g.P(1, 2) {
		c.Members = g.R(1, 6)
	}
	c.Speed = g.P(1, 5)
	if g.P(2, 5) {
		for i := g.R(1, 4); i > 0; i-- {
			c.Wild = append(c.Wild, pick(g, []string{`{"wildcard":"*~*~"}`, `{"wildcard":"a*~"}`, `{"wildcard":"0*1*~"}`, `{"shellstyle":"*~"}`, `{"regexp":"[^~~]*~~"}`, `{"regexp":"(a|b|1|2)*~~.?"}`, `{"wildcard":"x*a*b*~"}`}))
		}
		if c.Speed {
			c.Many = min(c.Many, 50*c.Few)
			c.Wild = c.Wild[:1]
		}
	}
	for len(c.Hits) < 3 {
		c.Hits = append(c.Hits, g.N(c.Many))
	}
	return c
}

func init() {
	register(&Prop{ID: "C27", Rule: "non-trivial: at least 50 times as many patterns",
		Subs: []*Sub{
			{Name: "latency", Quick: 600, Thorough: 20000, Workers: 4, New: func() any { return &LatCase{} }, Check: checkLat, Gen: genLat,
				Rule: "a few patterns, and 50 to 400 times as many of the same form; the same events, matched by at most one of them, must take about as long and allocate about as much; likewise a copy and its first match; non-trivial: at least 50 times as many patterns"},
		}})
}
