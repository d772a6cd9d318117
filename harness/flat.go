package main

// A reference Flattener: reads the whole event with the strict parser of recog.go.

import (
	"errors"
	"strings"

	quamina "quamina.net/go/quamina/v2"
)

type refFlattener struct {
	all    bool              // report every leaf, not just those asked for
	order  func(n int) []int // order of the fields
	hook   func(quamina.SegmentsTreeTracker, []byte) error
	after  func()
	copies int
	number func(a quamina.ArrayPos) quamina.ArrayPos // how arrays and their elements are numbered
}

var errRef = errors.New("the reference flattener refuses this")

func (f *refFlattener) Copy() quamina.Flattener {
	return &refFlattener{all: f.all, order: f.order, hook: f.hook, number: f.number, copies: f.copies + 1}
}

func (f *refFlattener) Flatten(event []byte, tracker quamina.SegmentsTreeTracker) ([]quamina.Field, error) {
	if f.hook != nil {
		if err := f.hook(tracker, event); err != nil {
			return nil, err
		}
	}
	if f.after != nil {
		event = append([]byte(nil), event...)
	}
	v, _, rest, ok := parseJSON(event)
	if !ok || v.K != "o" || len(strings.TrimSpace(string(rest))) > 0 {
		return nil, errRef
	}
	var out []quamina.Field
	arrays := int32(0)
	var walk func(v *Val, t quamina.SegmentsTreeTracker, name []byte, parent quamina.SegmentsTreeTracker, path string, trail []quamina.ArrayPos)
	walk = func(v *Val, t quamina.SegmentsTreeTracker, name []byte, parent quamina.SegmentsTreeTracker, path string, trail []quamina.ArrayPos) {
		switch v.K {
		case "o":
			if t == nil && !f.all {
				return
			}
			for _, m := range v.M {
				n := append([]byte{}, m.N...)
				if !f.all && !t.IsSegmentUsed(n) {
					continue
				}
				var kid quamina.SegmentsTreeTracker
				if t != nil {
					if k, ok := t.Get(n); ok {
						kid = k
					}
				}
				p := m.N
				if parent != nil || name != nil {
					p = path + "\n" + m.N
				}
				walk(m.V, kid, n, t, p, trail)
			}
		case "a":
			arrays++
			id := arrays
			for i, e := range v.E {
				at := quamina.ArrayPos{Array: id, Pos: int32(i)}
				if f.number != nil {
					at = f.number(at)
				}
				tr := append(append([]quamina.ArrayPos(nil), trail...), at)
				walk(e, t, name, parent, path, tr)
			}
		default:
			var p []byte
			if f.all {
				p = []byte(path)
			} else if p = parent.PathForSegment(name); p == nil {
				return
			}
			fl := quamina.Field{Path: p, ArrayTrail: trail}
			switch v.K {
			case "s":
				fl.Val = []byte(`"` + v.S + `"`)
			case "n":
				fl.Val, fl.IsNumber = []byte(v.S), true
			case "t":
				fl.Val = []byte("true")
			case "f":
				fl.Val = []byte("false")
			case "z":
				fl.Val = []byte("null")
			}
			out = append(out, fl)
		}
	}
	walk(v, tracker, nil, nil, "", nil)
	if f.after != nil {
		f.after()
	}
	if f.order != nil {
		perm := f.order(len(out))
		o2 := make([]quamina.Field, len(out))
		for i, j := range perm {
			o2[i] = out[j]
		}
		out = o2
	}
	return out, nil
}
