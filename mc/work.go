package main

import (
	"fmt"

	"github.com/roy2220/plainkv"
)

// C22: what an operation has to look at and to rewrite. What is counted is
// distinct spaces of the storage: how often and in which order they are
// accessed is up to the code. The bounds are generous multiples of what a
// search from the root, the neighbours on each level and new nodes take.

// reach is a bound on the spaces an operation may touch.
type reach struct{ pages, spaces int }

// the longest stored keys and values of a page which can lie elsewhere
const perPage = 4096 / 8

func reachWrite(height int) reach { return reach{8*height + 8, perPage * (8*height + 8)} }
func reachRange(height int) reach { return reach{4*height + 4, perPage * (4*height + 4)} }
func reachStep(height int) reach  { return reach{height + 6, 2*height + 16} }
func reachOpen(height int) reach  { return reach{2*height + 6, 2*height + 16} }

var (
	reachItem = reach{40, 40} // one operation on a table
	reachInfo = reach{4, 4}   // Stats
)

// within runs f and compares what it touches with the bound.
func (s *Subj) within(r reach, what string, f func()) (bad string) {
	s.env.track()
	m := guard(f)
	pages, spaces := s.env.touched()
	if m != "" {
		return what + " panics: " + m
	}
	return s.beyond(r, what, pages, spaces)
}

func (s *Subj) beyond(r reach, what string, pages, spaces int) string {
	if pages > r.pages || spaces > r.spaces {
		n, _ := s.nums()
		return fmt.Sprintf("%s touches %d pages and %d other spaces (contents: %+v)", what, pages, spaces, n)
	}
	return ""
}

// opReach bounds an operation on a dictionary.
func (s *Subj) opReach(o *Op, height int) reach {
	switch {
	case o.Kind == opReopen:
		return reachOpen(height)
	case s.ord && o.Kind == opTest:
		return reachRange(height)
	case s.ord:
		return reachWrite(height)
	}
	return reachItem
}

func monWork() *Mon {
	height := 0
	return &Mon{
		before: func(s *Subj, o *Op) {
			n, _ := s.nums()
			height = n.Height
			s.env.track()
		},
		after: func(s *Subj, o *Op, out *Out) string {
			pages, spaces := s.env.touched()
			n, bad := s.nums()
			if bad != "" {
				return bad
			}
			if height < n.Height {
				height = n.Height
			}
			return s.beyond(s.opReach(o, height), o.String(), pages, spaces)
		},
		final: workFinal,
	}
}

// workFinal looks at the operations which change nothing, and reopens.
func workFinal(s *Subj, p *Path) (bad string) {
	n, bad := s.nums()
	if bad != "" {
		return bad
	}
	keys := s.keys()
	if bad = s.within(reachInfo, "Stats", func() { s.nums() }); bad != "" {
		return
	}
	for _, i := range []int{0, 1, len(keys) / 2, len(keys) - 1} {
		if i < 0 || i >= len(keys) {
			continue
		}
		for _, k := range []string{keys[i], keys[i] + "\x00"} {
			o := Op{Kind: opTest, K: []byte(k), Want: true}
			if bad = s.within(s.opReach(&o, n.Height), o.String(), func() { s.rawOp(&o, o.K, nil) }); bad != "" {
				return
			}
			o = Op{Kind: opSetX, K: []byte(k + "\x00\x01"), V: []byte("v")}
			if _, ok := s.get(k + "\x00\x01"); ok {
				continue
			}
			if bad = s.within(s.opReach(&o, n.Height), o.String(), func() { s.rawOp(&o, o.K, o.V) }); bad != "" {
				return
			}
		}
	}
	if s.ord {
		bad = s.rangeWork(n.Height)
	} else {
		bad = s.scanWork(n.Slots)
	}
	if bad != "" {
		return
	}
	what := "closing and opening again"
	return s.within(reachOpen(n.Height), what, func() {
		o := s.do(&Op{Kind: opReopen})
		if o.Panic != "" {
			panic(o.Panic)
		}
	})
}

// rangeWork goes through ranges, looking at each step.
func (s *Subj) rangeWork(height int) (bad string) {
	bs := rangeBounds(s, 9)
	steps := 4000
	for i, min := range bs {
		for j, max := range bs {
			for d := 0; d < 2; d++ {
				name := [2]string{"RangeAsc", "RangeDesc"}[d]
				what := fmt.Sprintf("%s(%s,%s)", name, min, max)
				var it plainkv.OrderedDictIterator
				if bad = s.within(reachRange(height), what, func() { it = s.rangeOpen(min, max, d == 1) }); bad != "" {
					return
				}
				// all of it once, the others at their start only
				limit := 3
				if i == 0 && j == 1 && steps > 0 {
					limit = steps
				}
				for end := false; !end && limit > 0; limit-- {
					if bad = s.within(reachStep(height), "a step of "+what, func() {
						if end = it.IsAtEnd(); end {
							return
						}
						it.ReadRecordAll()
						it.Advance()
					}); bad != "" {
						return
					}
				}
			}
		}
	}
	return ""
}

// scanWork scans the table: each step passes as many slots as are empty, all
// steps together each slot about once.
func (s *Subj) scanWork(slots int) (bad string) {
	var c plainkv.DictCursor
	touched := 0 // in all steps
	for i := 0; i <= len(s.vals)+1; i++ {
		more := false
		s.ample()
		s.env.track()
		m := guard(func() { _, _, more = s.dd.Scan(&c) })
		pages, spaces := s.env.touched()
		if m != "" {
			return "Scan panics: " + m
		}
		touched += pages + spaces
		if max := 16*(slots+len(s.vals)) + 64; touched > max {
			return fmt.Sprintf("scanning %d items in %d slots touches %d spaces in %d steps", len(s.vals), slots, touched, i+1)
		}
		if !more {
			break
		}
	}
	return ""
}
