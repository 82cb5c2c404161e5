package main

import (
	"fmt"

	"github.com/roy2220/plainkv"
)

// ---- C19: markers

var (
	minBytes = string(plainkv.MinKey)
	maxBytes = string(plainkv.MaxKey)
)

func markersBad() string {
	if string(plainkv.MinKey) != minBytes || string(plainkv.MaxKey) != maxBytes {
		return "the bytes of a marker have changed"
	}
	return ""
}

func monMarkers() *Mon {
	return &Mon{
		after: func(s *Subj, o *Op, out *Out) string {
			if out.Bad != "" {
				return out.Bad
			}
			return markersBad()
		},
		final: func(s *Subj, p *Path) string {
			rs, bad := s.dump()
			if bad == "" {
				bad = s.same(rs)
			}
			if bad == "" {
				bad = s.lookAll([][]byte{[]byte(minBytes), []byte(maxBytes), []byte("A"), nil})
			}
			for _, mark := range []int{1, 2} {
				o := Op{Kind: opTest, Mark: mark, Want: true}
				if bad == "" {
					bad = s.do(&o).Bad
				}
			}
			bs := []bound{{mark: 1}, {mark: 2}, {k: []byte(minBytes)}, {k: []byte(maxBytes)}, {}, {mark: 3}, {k: []byte("MB")}, {k: []byte("\xff")}}
			if n := len(s.sorted); n > 0 {
				bs = append(bs, bound{k: []byte(s.sorted[0])}, bound{k: []byte(s.sorted[n/2])}, bound{k: []byte(s.sorted[n-1])})
			}
			for _, min := range bs {
				for _, max := range bs {
					for _, desc := range []bool{false, true} {
						if bad == "" {
							bad = s.checkRange(min, max, desc)
						}
					}
				}
			}
			if bad == "" {
				bad = markersBad()
			}
			return bad
		},
	}
}

func markOps(v []byte) (ops []Op) {
	for _, mark := range []int{1, 2} {
		for _, want := range []bool{true, false} {
			ops = append(ops, Op{Kind: opTest, Mark: mark, Want: want}, Op{Kind: opClear, Mark: mark, Want: want},
				Op{Kind: opSet, Mark: mark, V: v, Want: want}, Op{Kind: opSetX, Mark: mark, V: v, Want: want}, Op{Kind: opSetNX, Mark: mark, V: v, Want: want})
		}
	}
	return
}

func markAlphabet(which int) []Op {
	vals := []string{"", rep('v', 130)}
	var keys []string
	switch which {
	case 0: // the bytes of the markers, and keys before, between and behind them
		keys = []string{minBytes, maxBytes, "", "MB", "z"}
	case 1: // little more and little less than the bytes of the markers
		keys = []string{minBytes, minBytes + "\x00", minBytes[:len(minBytes)-1], maxBytes + "\x00", maxBytes[:len(maxBytes)-1]}
	default: // only the bytes of the markers, with many values
		keys = []string{minBytes, maxBytes}
		vals = []string{"", minBytes, maxBytes, rep('v', 130)}
	}
	ops := cat(setOps(opSet, keys, vals, true), setOps(opSetX, keys, vals[:1], true), setOps(opSetNX, keys, vals[1:], true),
		keyOps(opClear, keys, true), keyOps(opTest, keys, true))
	ops = append(ops, markOps([]byte("m"))...)
	ops = append(ops, Op{Kind: opSetX, Mark: 1, V: fillBytes('M', 200)}, Op{Kind: opSetX, Mark: 2, V: fillBytes('X', 200)})
	return append(ops, Op{Kind: opReopen})
}

// relabel makes the bytes of a marker the first key of leaf t: the keys before
// come before it and those behind come behind it.
func relabel(g *Geom, t int, mark string) {
	first := g.Leafs[t][0].Key[0]
	for i, l := range g.Leafs {
		for j := range l {
			k := append([]byte(nil), l[j].Key...)
			switch {
			case i < t:
				k[0] -= first - 'H'
			case i == t && j == 0:
				k = []byte(mark)
			case i == t:
				k[0] += 'N' - first
			default:
				k[0] += 'P' - first
			}
			l[j].Key = k
		}
	}
}

// markGeoms yields trees of heights 2 to 4.
func markGeoms(th bool, yield func(what string, mk func() (*Geom, int)) bool) {
	loads := []int{leafU, 4600, leafO}
	for _, a := range loads {
		for _, b := range loads {
			for n := 2; n <= 3; n++ {
				a, b, n := a, b, n
				for ti := 0; ti < n; ti++ {
					ti := ti
					if !yield(fmt.Sprintf("%d leafs", n), func() (*Geom, int) {
						g := &Geom{}
						for i := 0; i < n; i++ {
							l := a
							if i == ti {
								l = b
							}
							g.Leafs = append(g.Leafs, leafRecs(string([]byte{byte('B' + i)}), l, recPatterns[(a+b+i)%4], i%2 == 0))
						}
						g.Levels = [][]int{{n}}
						return g, ti
					}) {
						return
					}
				}
			}
		}
	}
	nls := []int{nlU + 300, 5000, nlO}
	for _, a := range nls {
		for _, tl := range []int{0, -1, 1000} {
			for _, side := range []int{0, 1, 2} {
				a, tl, side := a, tl, side
				if !yield("height 3", func() (*Geom, int) {
					nodes := []nlNode{{5000, []int{100}}, {5000, []int{100}}, {5000, []int{100}}}
					nodes[side].load = a
					return nlGeom(nodes, 60, side, tl, 4000, true)
				}) {
					return
				}
			}
		}
	}
	for side := 0; side < 3; side++ {
		for _, l := range []int{nlU + 300, nlO} {
			if !th && l == nlO {
				continue
			}
			side, l := side, l
			if !yield("height 4", func() (*Geom, int) { return deepGeom(l, l, 3600, []int{maxSep, 120}, side, 2) }) {
				return
			}
		}
	}
}

// markCells runs the operations on markers and look-alikes on bigger trees;
// sequences of clearings by markers empty them.
func markCells(t *T, th bool, sh, shards int, envOf func(i int) EnvCfg) {
	m := monMarkers()
	cell := 0
	markGeoms(th, func(what string, mk func() (*Geom, int)) bool {
		for variant := 0; variant < 4; variant++ {
			cell++
			if cell%shards != sh {
				continue
			}
			if t.expired() {
				return false
			}
			g, ti := mk()
			if g == nil {
				continue
			}
			// 0: as it is; 1, 2: a look-alike is the first key of a leaf
			// (and a separator); 3: look-alikes within a leaf
			switch variant {
			case 1:
				relabel(g, ti, minBytes)
			case 2:
				relabel(g, ti, maxBytes)
			case 3:
				l := g.Leafs[ti]
				relabel(g, ti, string(l[0].Key))
				l[0].Key[0] = 'I'
			}
			ops := markOps(fillBytes('N', 140))
			for _, k := range []string{minBytes, maxBytes} {
				ops = append(ops, Op{Kind: opSet, K: []byte(k), V: fillBytes('u', 128), Want: true}, Op{Kind: opSetX, K: []byte(k), V: []byte("w"), Want: true},
					Op{Kind: opSetNX, K: []byte(k), V: []byte("nx"), Want: true}, Op{Kind: opClear, K: []byte(k), Want: true}, Op{Kind: opTest, K: []byte(k), Want: true})
			}
			cellRun(t, envOf(cell), g, ops, m)
			if t.failed() {
				return false
			}
			// emptied by clearing at the markers
			n := 0
			for _, l := range g.Leafs {
				n += len(l)
			}
			if !th && n > 400 {
				n = 60
			}
			p := Path{Ord: true, Env: envOf(cell), Geom: g}
			tmpl := template(&p)
			for way := 0; way < 3; way++ {
				q := p
				for i := 0; i < n+1; i++ {
					mark := 1 + way
					if way == 2 {
						mark = 1 + i%2
					}
					q.Ops = append(q.Ops, Op{Kind: opClear, Mark: mark, Want: true})
					if i%9 == 4 {
						q.Ops = append(q.Ops, Op{Kind: opSetX, Mark: 3 - mark, V: fillBytes(byte(i), 133), Want: true})
					}
				}
				s, bad := runPath(&q, tmpl, m, 0)
				if bad == "" {
					bad = finish(s, &q, m)
				}
				s.end()
				t.Transitions += int64(n)
				if bad != "" {
					t.fail(q, "%s (%s)", bad, what)
					break
				}
			}
			tmpl.drop()
			if t.failed() {
				return false
			}
		}
		return true
	})
	if !isSim {
		t.Traces += t.Transitions
	}
}

func markerTasks(tier string) []Task {
	th := tier == "thorough"
	var xs []xp
	for w := 0; w < 3; w++ {
		xs = append(xs, bfsX(fmt.Sprintf("bfs/keys=%d", w), "all histories over the markers, keys with their bytes and keys around those, merged by stored contents, to closure", true,
			envs[w], markAlphabet(w), 14, 0, 40000))
	}
	depth := 2
	if th {
		depth = 3
	}
	xs = append(xs, realBFS("real/bfs", true, markAlphabet(0), depth), realBFS("real/bfs/2", true, markAlphabet(2), depth))
	shards := 6
	for sh := 0; sh < shards; sh++ {
		sh := sh
		xs = append(xs, xp{name: fmt.Sprintf("trees/%d", sh), ord: true,
			bound: "trees of heights 2 to 4, with the bytes of a marker as separator, within a leaf or absent: every operation at a marker or look-alike; emptied by clearing at the markers",
			run:   func(t *T, m *Mon) { markCells(t, th, sh, shards, func(i int) EnvCfg { return envs[i%4] }) }})
	}
	for sh := 0; sh < 2; sh++ {
		sh := sh
		xs = append(xs, xp{name: fmt.Sprintf("real/trees/%d", sh), ord: true, real: true, bound: "a selection of these on the real storage",
			run: func(t *T, m *Mon) {
				k := 15
				if th {
					k = 2
				}
				markCells(t, false, sh, k, func(i int) EnvCfg { return envA })
			}})
	}
	return tasksOf(xs, monMarkers)
}
