package main

import "fmt"

// history executes a path on one dictionary, judging every step (the state
// every so many steps), then the end and the prefixes of the given lengths,
// to which the final oracle is applied. It tells whether to go on.
func history(t *T, m *Mon, p Path, every int, cuts []int) bool {
	tmpl := template(&p)
	if tmpl != nil {
		defer tmpl.drop()
	}
	s, bad := startPath(&p, tmpl, m.scribble)
	fail := func(n int, bad string) bool {
		q := p
		q.Ops = p.Ops[:n]
		t.fail(q, "%s (operation %d of a history)", bad, n)
		s.end()
		return false
	}
	if bad != "" {
		return fail(0, bad)
	}
	height := 1
	for i := range p.Ops {
		if i%64 == 0 {
			tick()
			if t.expired() {
				s.end()
				return false
			}
		}
		o := &p.Ops[i]
		if m.probe != nil && i%(61+len(p.Ops)/40) < 2 {
			p.Probe = append(p.Probe, i)
			if bad := m.probe(s); bad != "" {
				return fail(i+1, fmt.Sprintf("before %s: %s", o, bad))
			}
		}
		if m.before != nil {
			m.before(s, o)
		}
		out := s.do(o)
		t.Transitions++
		t.States++
		if bad := m.onAfter(s, o, &out); bad != "" {
			return fail(i+1, bad)
		}
		if m.state != nil && i%every == 0 {
			if bad := m.state(s); bad != "" {
				return fail(i+1, bad)
			}
		}
		if i%100 == 0 {
			n, _ := s.nums()
			if n.Height > height {
				height = n.Height
			}
		}
	}
	t.max("height", height)
	if m.state != nil {
		bad = m.state(s)
	}
	if bad == "" {
		bad = finish(s, &p, m)
	}
	if bad != "" {
		return fail(len(p.Ops), bad)
	}
	s.end()
	if m.final == nil {
		return true
	}
	for _, c := range cuts {
		if t.expired() {
			return false
		}
		q := p
		q.Ops, q.Probe = p.Ops[:c], nil
		s, bad := runPath(&q, tmpl, m, len(q.Ops))
		if bad == "" {
			bad = finish(s, &q, m)
		}
		s.end()
		t.Transitions++
		if bad != "" {
			t.fail(q, "%s (prefix of %d operations of a history)", bad, c)
			return false
		}
	}
	return true
}

// ---- chains: many operations of a kind on one leaf and its neighbours

const (
	chShrink = iota // values to nothing
	chGrow          // values as long as can be
	chClear
	chInsert   // new records into the gaps
	chInsertAt // new records into one gap
	chZigzag   // one value longer, another one shorter
	chSwap     // one record cleared, another inserted
	chKinds
)

var chainNames = []string{"shrink", "grow", "clear", "insert", "insert at", "zigzag", "swap"}

// chain lists the operations of a chain on leaf t of a geometry and then on
// the leafs next to it.
func chain(g *Geom, t, kind, ord int) []Op {
	var ops []Op
	leafs := []int{t}
	if t+1 < len(g.Leafs) {
		leafs = append(leafs, t+1)
	}
	if t > 0 {
		leafs = append(leafs, t-1)
	}
	if kind == chInsert || kind == chInsertAt || kind == chGrow {
		leafs = leafs[:1]
	}
	ext := func(k []byte, i int) []byte {
		if len(k) > 8 {
			k = k[:8]
		}
		return append(append([]byte(nil), k...), fmt.Sprintf("~%03d", i)...)
	}
	for _, l := range leafs {
		rs := g.Leafs[l]
		n := len(rs)
		for j, i := range order(ord, n) {
			k := rs[i].Key
			long := fillBytes(byte(i*29+3), []int{128, 133}[i%2])
			switch kind {
			case chShrink:
				ops = append(ops, Op{Kind: []int{opSet, opSetX}[i%2], K: k, Want: i%3 == 0})
			case chGrow:
				ops = append(ops, Op{Kind: []int{opSetX, opSet}[i%2], K: k, V: long, Want: i%3 == 0})
			case chClear:
				ops = append(ops, Op{Kind: opClear, K: k, Want: i%2 == 0})
			case chInsert:
				ops = append(ops, Op{Kind: opSetNX, K: pad(string(ext(k, i)), []int{261, 20, 256}[i%3]), V: fillBytes(byte(i), []int{133, 100, 5}[i%3])})
			case chInsertAt:
				if j >= 30 {
					continue
				}
				at := []int{0, n - 1, n / 2, n / 3, n / 2}[ord]
				x := j
				if ord == 1 || ord == 3 {
					x = 999 - j
				}
				ops = append(ops, Op{Kind: opSet, K: pad(string(ext(rs[at].Key, x)), 257), V: fillBytes(byte(j), 128)})
			case chZigzag:
				ops = append(ops, Op{Kind: opSet, K: k, V: long}, Op{Kind: opSet, K: rs[n-1-i].Key})
			case chSwap:
				ops = append(ops, Op{Kind: opClear, K: k}, Op{Kind: opSet, K: pad(string(ext(rs[n-1-i].Key, j)), 250), V: fillBytes(byte(j), 60)})
			}
		}
		if kind == chInsertAt && n < 30 {
			for j := n; j < 30; j++ {
				at := []int{0, n - 1, n / 2, n / 3, n / 2}[ord]
				x := j
				if ord == 1 || ord == 3 {
					x = 999 - j
				}
				ops = append(ops, Op{Kind: opSet, K: pad(string(ext(rs[at].Key, x)), 257), V: fillBytes(byte(j), 128)})
			}
		}
	}
	return ops
}

// chainX enumerates chains from trees of one to three leafs.
func chainX(tier string, cost, sh, shards int) xp {
	stride := []int{1, 2, 3, 9}[cost]
	if tier == "thorough" {
		stride = 1
	}
	return xp{name: fmt.Sprintf("chains/%d", sh), ord: true,
		bound: "trees of 1-3 leafs with small, moderate and full ones; all values of a leaf and its neighbours shortened or lengthened, all records cleared or interspersed with others, one after another, in five orders",
		run: func(t *T, m *Mon) {
			cell := 0
			loads := []int{leafU, 4600, leafO}
			type geo struct{ l, c, r int }
			var gs []geo
			for _, c := range loads {
				gs = append(gs, geo{-1, c, -1})
				for _, a := range loads {
					gs = append(gs, geo{a, c, -1}, geo{-1, c, a})
					for _, b := range loads {
						gs = append(gs, geo{a, c, b})
					}
				}
			}
			for kind := 0; kind < chKinds; kind++ {
				for ord := 0; ord < 5; ord++ {
					for _, pat := range recPatterns {
						for _, q := range gs {
							cell++
							if !mine(cell, sh, shards, stride) {
								continue
							}
							if t.expired() || t.failed() {
								return
							}
							g := &Geom{}
							ti := 0
							if q.l >= 0 {
								g.Leafs = append(g.Leafs, leafRecs("B", q.l, recPatterns[(cell/5)%4], cell%2 == 0))
								ti = 1
							}
							// records made of values, so that shortening matters
							g.Leafs = append(g.Leafs, leafRecs("C", q.c, pat, false))
							if q.r >= 0 {
								g.Leafs = append(g.Leafs, leafRecs("D", q.r, recPatterns[(cell/7)%4], cell%3 == 0))
							}
							if len(g.Leafs) > 1 {
								g.Levels = [][]int{{len(g.Leafs)}}
							}
							p := Path{Ord: true, Env: envs[(cell/3)%4], Geom: g, Ops: chain(g, ti, kind, ord)}
							n := len(p.Ops)
							history(t, m, p, 1, []int{n / 4, n / 2, 3 * n / 4})
							if t.failed() {
								return
							}
							if cell%97 == 0 {
								t.sample("%s in order %d, leafs of %v", chainNames[kind], ord, q)
							}
						}
					}
				}
			}
		}}
}

// nlChainX enumerates chains of leaf merges, splits and separator changes
// below one non-leaf.
func nlChainX(tier string, cost, sh, shards int) xp {
	stride := []int{1, 1, 2, 6}[cost]
	if tier == "thorough" {
		stride = 1
	}
	return xp{name: fmt.Sprintf("nlchains/%d", sh), ord: true,
		bound: "trees of height 3 with small and full non-leafs; merges, splits and separator changes in all leafs of a non-leaf, one after another, in five orders",
		run: func(t *T, m *Mon) {
			cell := 0
			loads := []int{nlU, 4500, nlO}
			for kind := 0; kind < nlKinds; kind++ {
				for ord := 0; ord < 5; ord++ {
					for _, pat := range [][]int{{maxSep}, {60}, {maxSep, 20, 20}} {
						for _, mid := range loads {
							for _, a := range loads {
								for tn := 0; tn < 2; tn++ {
									cell++
									if !mine(cell, sh, shards, stride) {
										continue
									}
									if t.expired() || t.failed() {
										return
									}
									tload := []int{2790, leafO, 4200, 4200}[kind]
									nodes := []nlNode{{a, pat}, {mid, pat}, {a, pat}}[tn:]
									g, _ := nlGeom(nodes, []int{8, 257}[cell%2], 1-tn, 1, tload, kind == nlSepA)
									if g == nil {
										continue
									}
									first := 0
									if tn == 0 {
										first = g.Levels[0][0]
									}
									n := g.Levels[0][1-tn]
									var ops []Op
									for _, i := range order(ord, n) {
										rs := g.Leafs[first+i]
										switch kind {
										case nlMerge:
											ops = append(ops, Op{Kind: opClear, K: rs[len(rs)-1].Key}, Op{Kind: opClear, K: rs[len(rs)-2].Key}, Op{Kind: opClear, K: rs[0].Key})
										default:
											ops = append(ops, nlOp(g, first+i, kind)...)
										}
									}
									p := Path{Ord: true, Env: envs[(cell/3)%4], Geom: g, Ops: ops}
									history(t, m, p, 1+len(ops)/40, []int{len(ops) / 3, 2 * len(ops) / 3})
								}
							}
						}
					}
				}
			}
			t.sample("merges, splits and separator changes in all leafs of a non-leaf")
		}}
}

// ---- storms: the same thing happens in every leaf of a big tree

// stormGeom builds a tree of height 3 whose root has the load top and whose
// non-leafs have the loads mids in turn; all leafs have the load lf.
func stormGeom(top int, mids []int, lf int, pat []int, parentSep int, secondLong bool) *Geom {
	lens2 := sepLens(top, pat)
	if lens2 == nil {
		return nil
	}
	g := &Geom{}
	var counts []int
	for a := 0; a <= len(lens2); a++ {
		lens1 := sepLens(mids[a%len(mids)], pat)
		if lens1 == nil {
			return nil
		}
		for i := 0; i <= len(lens1); i++ {
			pre := fmt.Sprintf("B%03d%03d", a, i)
			stored := parentSep
			if i > 0 {
				stored = lens1[i-1] - childHdr
			} else if a > 0 {
				stored = lens2[a-1] - childHdr
			}
			if stored < len(pre)+3 {
				stored = len(pre) + 3
			}
			g.Leafs = append(g.Leafs, fillerLeaf(pre, sepKey(pre+"000", stored), lf, secondLong))
		}
		counts = append(counts, len(lens1)+1)
	}
	g.Levels = [][]int{counts, {len(counts)}}
	return g
}

const (
	stMerge = iota
	stSplit
	stLonger  // separators
	stShorter // separators
	stMixed   // merges and splits in turn
	stKinds
)

var stormNames = []string{"merges", "splits", "longer separators", "shorter separators", "merges and splits"}

func stormOps(g *Geom, kind, ord int) []Op {
	var ops []Op
	for j, i := range order(ord, len(g.Leafs)) {
		rs := g.Leafs[i]
		k := kind
		if k == stMixed {
			k = []int{stMerge, stSplit}[(i/7+j%2)%2]
		}
		switch k {
		case stMerge:
			n := len(rs)
			ops = append(ops, Op{Kind: opClear, K: rs[n-1].Key}, Op{Kind: opSetX, K: rs[n-2].Key}, Op{Kind: opClear, K: rs[0].Key, Want: j%4 == 0})
		case stSplit:
			at := append(append([]byte(nil), rs[(i*5)%len(rs)].Key[:8]...), 'x')
			ops = append(ops, Op{Kind: opSet, K: pad(string(at), 261), V: fillBytes(byte(i), 133)})
			if j%3 == 0 {
				ops = append(ops, Op{Kind: opSetNX, K: pad(string(append(at, 'y')), 240), V: fillBytes(byte(i), 128)})
			}
		default:
			ops = append(ops, Op{Kind: opClear, K: rs[0].Key, Want: j%4 == 0})
		}
	}
	return ops
}

// stormX enumerates storms.
func stormX(tier string, cost, sh, shards int) xp {
	stride := []int{1, 2, 3, 12}[cost]
	if tier == "thorough" {
		stride = 1
	}
	return xp{name: fmt.Sprintf("storms/%d", sh), ord: true,
		bound: "trees of height 3 whose root and non-leafs are small, full, or small and full in turn; a merge, a split, or another separator for every leaf, one after another, in five orders",
		run: func(t *T, m *Mon) {
			cell := 0
			for _, top := range []int{childHdr + maxSep, nlU, nlO} {
				for kind := 0; kind < stKinds; kind++ {
					for _, mids := range [][]int{{nlU}, {nlO}, {nlU, nlO}, {nlO, nlO, 4500}} {
						for _, pat := range [][]int{{maxSep}, {maxSep, 60, 150}} {
							for ord := 0; ord < 5; ord++ {
								cell++
								if !mine(cell, sh, shards, stride) {
									continue
								}
								if t.expired() || t.failed() {
									return
								}
								lf := []int{2790, leafO, 4200, 4200, 2790}[kind]
								if kind == stMixed && ord%2 == 1 {
									lf = leafO
								}
								g := stormGeom(top, mids, lf, pat, []int{10, 257}[cell%2], kind == stLonger)
								if g == nil {
									continue
								}
								ops := stormOps(g, kind, ord)
								p := Path{Ord: true, Env: envs[(cell/3)%4], Geom: g, Ops: ops}
								history(t, m, p, 1+len(ops)/24, []int{len(ops) / 2})
								if cell%17 == 0 {
									t.sample("%s in order %d: %d leafs under %d non-leafs, loads %v under %d", stormNames[kind], ord, len(g.Leafs), len(g.Levels[0]), mids, top)
								}
							}
						}
					}
				}
			}
		}}
}
