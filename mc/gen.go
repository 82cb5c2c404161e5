package main

import (
	"encoding/json"
	"fmt"
)

// Thresholds of the repository, used only to aim geometries at the places
// where behaviour changes (no oracle depends on them).
const (
	leafO   = 7778
	leafU   = 2770
	nlO     = 7919
	nlU     = 2869
	maxRec  = 394
	minRec  = 12
	maxSep  = 269
	minSepL = childHdr + 8
)

func pad(s string, n int) []byte {
	b := []byte(s)
	for len(b) < n {
		b = append(b, byte('a'+len(b)%26))
	}
	return b
}

func sumByte(s string) (c byte) {
	for i := 0; i < len(s); i++ {
		c = c*31 + s[i]
	}
	return
}

// fillBytes makes n bytes which differ by position.
func fillBytes(c byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = c + byte(i%23) + byte(i/251)
	}
	return b
}

// sizes splits a total into parts between min and max following a pattern;
// nil if impossible.
func sizes(total, min, max int, pattern []int) []int {
	var out []int
	rem := total
	for i := 0; rem > 0; i++ {
		s := pattern[i%len(pattern)]
		if s > rem {
			break
		}
		out = append(out, s)
		rem -= s
	}
	for rem != 0 && (rem < min || rem > max) {
		if rem > max {
			h := rem / 2
			if h > max || h < min {
				return nil
			}
			out = append(out, h)
			rem -= h
			continue
		}
		if len(out) == 0 {
			return nil
		}
		rem += out[len(out)-1]
		out = out[:len(out)-1]
	}
	if rem > 0 {
		out = append(out, rem)
	}
	return out
}

// mkRec makes a record of the given load whose key starts with the prefix.
// Stored sizes at the maximum are made of keys and values kept out of line.
func mkRec(prefix string, load int, keyHeavy bool) Rec {
	s := load - recHdr
	var k, v int
	if keyHeavy {
		k = s
		if k > 257 {
			k = 257
		}
		v = s - k
	} else {
		v = s - len(prefix)
		if v > 129 {
			v = 129
		}
		k = s - v
	}
	if v > 129 || k > 257 || k < len(prefix) {
		panic(fmt.Sprintf("record of load %d", load))
	}
	if k == 257 {
		k = 261
	}
	if v == 129 {
		v = 133
	}
	return Rec{pad(prefix, k), fillBytes(sumByte(prefix), v)}
}

// leafRecs makes the records of a leaf with exactly the given load.
func leafRecs(prefix string, load int, pattern []int, keyHeavy bool) []Rec {
	sz := sizes(load, minRec, maxRec, pattern)
	var rs []Rec
	for i, s := range sz {
		rs = append(rs, mkRec(fmt.Sprintf("%s%03d", prefix, 2*i), s, keyHeavy))
	}
	return rs
}

var recPatterns = [][]int{{maxRec}, {60}, {maxRec, 20}, {197, 394, 12}}

// leafOps are the operations tried on leaf t of a geometry.
func leafOps(g *Geom, t int, prefix string, grow bool) []Op {
	rs := g.Leafs[t]
	n := len(rs)
	var ops []Op
	pos := []int{0, n / 2, n - 1}
	if n < 3 {
		pos = []int{0, n - 1}
	}
	if grow {
		for _, p := range append([]int{-1}, pos...) {
			for _, load := range []int{minRec + 1, 200, maxRec} {
				pre := fmt.Sprintf("%s%03d", prefix, 2*p+1)
				if p < 0 {
					if t != 0 {
						continue
					}
					pre = "A000" // before everything
				}
				r := mkRec(pre, load, load != 200)
				ops = append(ops, Op{Kind: opSet, K: r.Key, V: r.Val, Want: true})
			}
		}
		for _, p := range pos {
			ops = append(ops, Op{Kind: opSetX, K: rs[p].Key, V: fillBytes(byte(p*11), 135), Want: p == 0})
		}
		return ops
	}
	for _, p := range pos {
		ops = append(ops, Op{Kind: opClear, K: rs[p].Key, Want: true})
		ops = append(ops, Op{Kind: opSet, K: rs[p].Key, V: nil, Want: p == 0})
	}
	return ops
}

// leafGrid enumerates trees of two or three leafs at loads around the
// thresholds and every operation on one of them.
// mine tells whether a cell of a grid belongs to a shard and to the share of
// the cells (one in stride) which is looked at. The share is spread so that
// it has no period in common with the loops of a grid.
func mine(cell, shard, shards, stride int) bool {
	if cell%shards != shard {
		return false
	}
	x := uint64(cell) * 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	return stride <= 1 || (x>>32)%uint64(stride) == 0
}

type leafGrid struct {
	t        *T
	mon      *Mon
	env      EnvCfg
	sibs     []int
	patterns [][]int
	sibPats  [][]int
	shard    int
	shards   int
	stride   int // take every stride-th cell
}

func (lg *leafGrid) run() {
	t := lg.t
	cell := 0
	type lr struct{ l, r int } // loads of the siblings, -1: none
	var around []lr
	for _, a := range lg.sibs {
		around = append(around, lr{a, -1}, lr{-1, a})
		for _, b := range lg.sibs {
			around = append(around, lr{a, b})
		}
	}
	targets := []struct {
		load int
		grow bool
	}{{leafU, false}, {leafU + 15, false}, {leafO, true}, {leafO - 15, true}}
	for pi, pat := range lg.patterns {
		for _, sp := range lg.sibPats {
			for _, tg := range targets {
				for _, ar := range around {
					cell++
					if !mine(cell, lg.shard, lg.shards, lg.stride) {
						continue
					}
					if t.expired() {
						return
					}
					g := &Geom{}
					ti := 0
					if ar.l >= 0 {
						g.Leafs = append(g.Leafs, leafRecs("B", ar.l, sp, true))
						ti = 1
					}
					g.Leafs = append(g.Leafs, leafRecs("C", tg.load, pat, pi%2 == 0))
					if ar.r >= 0 {
						g.Leafs = append(g.Leafs, leafRecs("D", ar.r, sp, true))
					}
					g.Levels = [][]int{{len(g.Leafs)}}
					lg.cell(g, leafOps(g, ti, "C", tg.grow))
					if t.failed() {
						return
					}
				}
			}
		}
	}
}

// cellRun executes every operation on a geometry as a history of its own.
func cellRun(t *T, env EnvCfg, g *Geom, ops []Op, m *Mon) {
	p := Path{Ord: true, Env: env, Geom: g}
	tmpl := template(&p)
	defer tmpl.drop()
	t.States++
	for i := range ops {
		q := p
		q.Ops = ops[i : i+1]
		s, bad := runPath(&q, tmpl, m, 0)
		if bad == "" {
			bad = finish(s, &q, m)
		}
		s.end()
		t.Transitions++
		if bad != "" {
			t.fail(q, "%s", bad)
			return
		}
	}
	if t.States == 10 {
		var ls []string
		for _, l := range g.Leafs {
			n := 0
			for _, r := range l {
				n += recLoad(r)
			}
			ls = append(ls, fmt.Sprintf("%d records/%d bytes", len(l), n))
			if len(ls) > 4 {
				break
			}
		}
		t.sample("tree of leafs %v, then each of %v", ls, ops)
	}
}

func (lg *leafGrid) cell(g *Geom, ops []Op) { cellRun(lg.t, lg.env, g, ops, lg.mon) }

func pathReplay(m *Mon) func(raw json.RawMessage) string {
	return func(raw json.RawMessage) string {
		var p Path
		if err := json.Unmarshal(raw, &p); err != nil {
			return "" // not a path
		}
		if p.Geom != nil && p.Geom.Gen == "leafs" {
			p.Geom = leafsGeom()
		}
		return checkPath(&p, m)
	}
}

// ---- non-leaf grid

// sepKeys makes separators such that a non-leaf holding them has the load.
func sepLens(load int, pattern []int) []int {
	return sizes(load-childHdr, minSepL, maxSep, pattern)
}

// nlNode describes a non-leaf above leafs.
type nlNode struct {
	load int
	pat  []int
}

// sepKey pads a prefix to a separator of the given stored length.
func sepKey(prefix string, stored int) []byte {
	if stored < len(prefix) {
		stored = len(prefix)
	}
	if stored >= 257 {
		return pad(prefix, 263)
	}
	return pad(prefix, stored)
}

// fillerLeaf makes the records of a leaf with smallest key k of about the given load.
func fillerLeaf(prefix string, k []byte, load int, secondLong bool) []Rec {
	rs := []Rec{{k, []byte("v")}}
	left := load - recLoad(rs[0])
	sz := sizes(left, 20, 390, []int{390})
	for i, s := range sz {
		pre := fmt.Sprintf("%s%03d", prefix, 2*i+2)
		kl := 254
		if i == 0 && !secondLong {
			kl = len(pre) + 1
		}
		v := s - recHdr - kl
		if v < 0 {
			v = 0
			kl = s - recHdr
		}
		if v > 128 {
			v = 128
			if kl+v+recHdr < s {
				kl = s - recHdr - v
			}
		}
		rs = append(rs, Rec{pad(pre, kl), fillBytes(sumByte(pre), v)})
	}
	return rs
}

// nlGeom builds a tree of height 3 (or 2 for a single node): non-leafs with
// the loads given; parentSep: stored length of the separators in the root.
// The leafs around leaf tl of node tn have load tload, all others a moderate one.
func nlGeom(nodes []nlNode, parentSep int, tn, tl, tload int, secondLong bool) (*Geom, int) {
	g := &Geom{}
	var counts []int
	target := -1
	for ni, nd := range nodes {
		lens := sepLens(nd.load, nd.pat)
		if lens == nil {
			return nil, -1
		}
		c := len(lens) + 1
		if tl >= c {
			tl = c - 1
		}
		ti := tl
		if tl < 0 {
			ti = c / 2
		}
		for i := 0; i < c; i++ {
			pre := fmt.Sprintf("%c%04d", 'B'+ni, i)
			stored := parentSep
			if i > 0 {
				stored = lens[i-1] - childHdr
			}
			load := 3300
			if ni == tn && (i >= ti-1 && i <= ti+1) {
				load = tload
			}
			if ni == tn && i == ti {
				target = len(g.Leafs)
			}
			g.Leafs = append(g.Leafs, fillerLeaf(pre, sepKey(pre+"000", stored), load, secondLong))
		}
		counts = append(counts, c)
	}
	g.Levels = [][]int{counts}
	if len(nodes) > 1 {
		g.Levels = append(g.Levels, []int{len(nodes)})
	}
	return g, target
}

const (
	nlMerge = iota // clear a record so that leafs merge
	nlSplit        // insert a record so that a leaf splits
	nlSepA         // clear the first record of a leaf: longer separator
	nlSepB         // clear the first record of a leaf: shorter separator
	nlKinds
)

func nlOp(g *Geom, target, kind int) []Op {
	rs := g.Leafs[target]
	switch kind {
	case nlMerge:
		return []Op{{Kind: opClear, K: rs[len(rs)-1].Key, Want: true}, {Kind: opClear, K: rs[0].Key}}
	case nlSplit:
		k := append(append([]byte(nil), rs[len(rs)/2].Key[:8]...), []byte("x")...)
		return []Op{{Kind: opSet, K: pad(string(k), 261), V: fillBytes('s', 133), Want: true},
			{Kind: opSetNX, K: pad(string(append(append([]byte(nil), rs[len(rs)-1].Key[:8]...), 'x')), 250), V: fillBytes('s', 100)}}
	default:
		return []Op{{Kind: opClear, K: rs[0].Key}}
	}
}

type nlGrid struct {
	t      *T
	mon    *Mon
	env    EnvCfg
	shard  int
	shards int
	stride int
	loads  []int
	pats   [][]int
}

func (ng *nlGrid) run() {
	t := ng.t
	cell := 0
	var around [][2]int
	around = append(around, [2]int{-1, -1})
	for _, a := range ng.loads {
		around = append(around, [2]int{a, -1}, [2]int{-1, a})
		for _, b := range ng.loads {
			around = append(around, [2]int{a, b})
		}
	}
	for _, kind := range []int{nlMerge, nlSplit, nlSepA, nlSepB} {
		tloads := []int{nlU, nlU + 100}
		if kind == nlSplit || kind == nlSepA {
			tloads = []int{nlO, nlO - 100}
		}
		for _, load := range tloads {
			for _, pat := range ng.pats {
				for _, ar := range around {
					for _, parentSep := range []int{8, 257} {
						for _, tl := range []int{0, -1, 1000, 1} {
							cell++
							if !mine(cell, ng.shard, ng.shards, ng.stride) {
								continue
							}
							if t.expired() {
								return
							}
							var nodes []nlNode
							tn := 0
							if ar[0] >= 0 {
								nodes = append(nodes, nlNode{ar[0], ng.pats[cell%len(ng.pats)]})
								tn = 1
							}
							nodes = append(nodes, nlNode{load, pat})
							if ar[1] >= 0 {
								nodes = append(nodes, nlNode{ar[1], ng.pats[(cell/3)%len(ng.pats)]})
							}
							tload := 2790
							if kind == nlSplit {
								tload = leafO
							}
							if kind == nlSepA || kind == nlSepB {
								tload = 4200
							}
							if len(nodes) == 1 && kind == nlMerge {
								// a root has no lower bound; cover roots with few children
								nodes[0].load = childHdr + maxSep
							}
							g, target := nlGeom(nodes, parentSep, tn, tl, tload, kind == nlSepA)
							if g == nil {
								continue
							}
							cellRun(t, ng.env, g, nlOp(g, target, kind), ng.mon)
							if t.failed() {
								return
							}
						}
					}
				}
			}
		}
	}
}

// deepGeom builds a tree of height 4 whose nodes on the path to the target
// leaf (and their neighbours) have the loads given; side: 0 leftmost,
// 1 middle, 2 rightmost path.
func deepGeom(l2, l1, lf int, pat []int, side int, roots int) (*Geom, int) {
	g := &Geom{}
	var lv1, lv2 []int
	target := -1
	for r := 0; r < roots; r++ {
		lens2 := sepLens(l2, pat)
		if lens2 == nil {
			return nil, -1
		}
		n2 := len(lens2) + 1
		tr := []int{0, roots / 2, roots - 1}[side]
		t2 := []int{0, n2 / 2, n2 - 1}[side]
		for a := 0; a < n2; a++ {
			load := nlU + 10
			near := r == tr && a >= t2-1 && a <= t2+1
			if near {
				load = l1
			}
			lens1 := sepLens(load, []int{maxSep})
			if near {
				lens1 = sepLens(load, pat)
			}
			if lens1 == nil {
				return nil, -1
			}
			n1 := len(lens1) + 1
			t1 := []int{0, n1 / 2, n1 - 1}[side]
			for i := 0; i < n1; i++ {
				pre := fmt.Sprintf("%c%02d%02d", 'B'+r, a, i)
				stored := 8
				if i > 0 {
					stored = lens1[i-1] - childHdr
				} else if a > 0 {
					stored = lens2[a-1] - childHdr
				}
				ll := 2800
				if near && i >= t1-1 && i <= t1+1 {
					ll = lf
				}
				if r == tr && a == t2 && i == t1 {
					target = len(g.Leafs)
				}
				g.Leafs = append(g.Leafs, fillerLeaf(pre, sepKey(pre+"000", stored), ll, true))
			}
			lv1 = append(lv1, n1)
		}
		lv2 = append(lv2, n2)
	}
	g.Levels = [][]int{lv1, lv2}
	if roots > 1 {
		g.Levels = append(g.Levels, []int{roots})
	}
	return g, target
}
