package main

import (
	"fmt"
	"runtime/debug"
)

// Contents whose counts exceed 16 bits, and trees higher than any sweep builds.

// crowdGeom builds a tree of height 3 with leafs of many small records.
func crowdGeom(leafs, per int) *Geom {
	g := &Geom{}
	for i := 0; i < leafs; i++ {
		var rs []Rec
		for j := 0; j < per; j++ {
			k := fmt.Sprintf("%04d%03d", i, 2*j)
			rs = append(rs, Rec{[]byte(k), []byte(k[3:])})
		}
		g.Leafs = append(g.Leafs, rs)
	}
	var counts []int
	for left := leafs; left > 0; {
		n := 200
		if left < 400 && left > 200 {
			n = left / 2
		}
		if n > left {
			n = left
		}
		counts = append(counts, n)
		left -= n
	}
	g.Levels = [][]int{counts, {len(counts)}}
	return g
}

// towerGeom builds a tree of the given height (at least 4) of nodes of equal loads.
func towerGeom(height int, lens []int, leafLoad int) *Geom {
	f := len(lens) + 1
	n := 2
	for h := 3; h <= height-1; h++ {
		n *= f
	}
	g := &Geom{}
	for i := 0; i < n*f; i++ {
		pre := fmt.Sprintf("%05d", i)
		g.Leafs = append(g.Leafs, fillerLeaf(pre, sepKey(pre+"000", 257), leafLoad, true))
	}
	for m := n; ; m /= f {
		counts := make([]int, m)
		for i := range counts {
			counts[i] = f
		}
		g.Levels = append(g.Levels, counts)
		if m == 2 {
			break
		}
	}
	g.Levels = append(g.Levels, []int{2})
	return g
}

// leafsGeom builds a tree of height 3 with as many small leafs as a 16-bit number exceeds.
func leafsGeom() *Geom {
	g := &Geom{Gen: "leafs"}
	v := fillBytes('v', 128)
	for i := 0; i < 65540; i++ {
		var rs []Rec
		for j := 0; j < 8; j++ {
			rs = append(rs, Rec{pad(fmt.Sprintf("%05d%d", i, j), 256), v})
		}
		rs[0].Key = rs[0].Key[:7]
		g.Leafs = append(g.Leafs, rs)
	}
	var counts []int
	for left := len(g.Leafs); left > 0; left -= 290 {
		counts = append(counts, minInt(left, 290))
	}
	g.Levels = [][]int{counts, {len(counts)}}
	return g
}

func manyLeafs() xp {
	return xp{name: "huge/leafs", ord: true, bound: "a tree of 65540 leafs; changes in the middle, with reopening",
		run: func(t *T, m *Mon) {
			g := leafsGeom()
			var rs []Rec
			for _, l := range g.Leafs {
				rs = append(rs, l...)
			}
			hugeRun(t, m, Path{Ord: true, Env: envB, Geom: g}, rs, []int{len(rs) / 2})
		}}
}

// hugeOps goes through a change at one record of a tree (or table), reopening between.
func hugeOps(rs []Rec, at int) []Op {
	r := rs[at]
	return []Op{{Kind: opReopen},
		{Kind: opClear, K: r.Key, Want: true}, {Kind: opReopen},
		{Kind: opSet, K: append(append([]byte(nil), r.Key...), 'x'), V: fillBytes('n', 100), Want: true},
		{Kind: opSetX, K: append(append([]byte(nil), r.Key...), 'x'), V: fillBytes('m', 90), Want: true},
		{Kind: opSetNX, K: r.Key, V: []byte("again"), Want: true}, {Kind: opReopen}}
}

func hugeRun(t *T, m *Mon, p Path, rs []Rec, places []int) {
	defer debug.SetGCPercent(debug.SetGCPercent(60))
	tmpl := template(&p)
	defer tmpl.drop()
	t.States++
	for _, at := range places {
		if t.expired() || t.failed() {
			return
		}
		q := p
		q.Ops = hugeOps(rs, at)
		from := len(q.Ops) - 1 // judged in the end, and when continued
		s, bad := runPath(&q, tmpl, m, from)
		if bad == "" {
			bad = finish(s, &q, m)
		}
		s.end()
		t.Transitions += int64(len(q.Ops))
		if bad != "" {
			if q.Geom != nil && q.Geom.Gen != "" {
				q.Geom = &Geom{Gen: q.Geom.Gen}
			}
			t.fail(q, "%s (%d records, change at %d)", bad, len(rs), at)
			return
		}
	}
	t.sample("%d records, changes at %v", len(rs), places)
}

func hugeOrd(tier string, cost int) []xp {
	th := tier == "thorough"
	all := func(g *Geom) (rs []Rec) {
		for _, l := range g.Leafs {
			rs = append(rs, l...)
		}
		return
	}
	xs := []xp{{name: "huge/records", ord: true, bound: "a tree of 66000 records; changes at the ends and in the middle, with reopening",
		run: func(t *T, m *Mon) {
			g := crowdGeom(330, 200)
			rs := all(g)
			places := []int{0, 200, len(rs) / 2}
			if th {
				places = []int{0, 1, 199, 200, 399, len(rs) / 2, len(rs) - 1}
			}
			hugeRun(t, m, Path{Ord: true, Env: envB, Geom: g}, rs, places)
		}}}
	if cost == 1 || th {
		xs = append(xs, manyLeafs())
	}
	heights := []int{5}
	if th && cost == 1 {
		heights = append(heights, 6)
	}
	for _, h := range heights {
		h := h
		xs = append(xs, xp{name: fmt.Sprintf("huge/height=%d", h), ord: true, bound: fmt.Sprintf("a tree of height %d of smallest nodes; merges through all levels at the ends and in the middle, with reopening", h),
			run: func(t *T, m *Mon) {
				g := towerGeom(h, sepLens(nlU, []int{maxSep}), 2790)
				rs := all(g)
				places := []int{0, len(rs) / 2, len(rs) - 1}
				if th {
					places = []int{0, 1, 8, len(rs)/2 - 1, len(rs) / 2, len(rs)/2 + 3, len(rs) - 1}
				}
				hugeRun(t, m, Path{Ord: true, Env: envA, Geom: g}, rs, places)
			}})
	}
	return xs
}

func hugeDict(tier string) []xp {
	th := tier == "thorough"
	return []xp{{name: "huge/slots", bound: "a table of 65540 slots and as few items as possible; changes of several items, with reopening",
		run: func(t *T, m *Mon) {
			g := TableGeom{Slots: 65540, Items: tableItems(minItems(65540))}
			places := []int{0}
			if th {
				places = []int{0, 5, len(g.Items) / 2, len(g.Items) - 1}
			}
			hugeRun(t, m, Path{Env: envA, Table: &g}, g.Items, places)
		}}, {name: "huge/items", bound: "a table of 66276 items in 40962 slots; changes of several items, with reopening",
		run: func(t *T, m *Mon) {
			g := TableGeom{Slots: 40962, Items: tableItems(maxItems(40962))}
			places := []int{0, len(g.Items) / 2}
			if th {
				places = []int{0, 5, len(g.Items) / 2, len(g.Items) - 1}
			}
			hugeRun(t, m, Path{Env: envB, Table: &g}, g.Items, places)
		}}}
}
