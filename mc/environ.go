package main

import (
	"fmt"
)

// ---- C15: behaviours of the storage

// envSeeds are histories which together pass through every kind of change of
// a page, a table and a descriptor.
func envSeeds(th bool) []struct {
	name string
	path Path
} {
	type seed = struct {
		name string
		path Path
	}
	var out []seed
	add := func(n string, p Path) { out = append(out, seed{n, p}) }
	all := func(ord bool) []Op {
		long, lv := mixBytes(1, 300), mixBytes(2, 300)
		k2 := append(append([]byte(nil), long...), 'x')
		return []Op{
			{Kind: opSet, K: []byte("a"), V: []byte("1"), Want: true}, {Kind: opSetNX, K: long, V: lv, Want: true},
			{Kind: opSet, K: []byte("a"), V: lv, Want: true}, {Kind: opSet, K: []byte("a"), V: mixBytes(3, 500), Want: true},
			{Kind: opSetNX, K: long, V: nil, Want: true}, {Kind: opSetX, K: long, V: mixBytes(4, 129), Want: true},
			{Kind: opSet, K: k2, V: nil}, {Kind: opTest, K: k2, Want: true}, {Kind: opReopen},
			{Kind: opSetX, K: long, V: []byte("s"), Want: true}, {Kind: opClear, K: []byte("a"), Want: true}, {Kind: opReopen},
			{Kind: opClear, K: long, Want: true}, {Kind: opClear, K: k2}, {Kind: opSet, K: k2, V: lv},
		}
	}
	add("ordered/basics", Path{Ord: true, Ops: all(true)})
	add("hash/basics", Path{Ops: all(false)})
	geo := func(name string, loads []int, t int, grow bool, pat []int) {
		g := &Geom{}
		for i, l := range loads {
			g.Leafs = append(g.Leafs, leafRecs(string(rune('B'+i)), l, pat, true))
		}
		g.Levels = [][]int{{len(loads)}}
		if len(loads) == 1 {
			g.Levels = nil
		}
		for i, o := range leafOps(g, t, string(rune('B'+t)), grow) {
			if !th && i%2 == 1 && grow {
				continue
			}
			add(fmt.Sprintf("ordered/%s/%d", name, i), Path{Ord: true, Geom: g, Ops: []Op{o, {Kind: opReopen}}})
		}
	}
	max := []int{maxRec}
	geo("root split", []int{leafO}, 0, true, max)
	geo("leaf split", []int{leafO, leafO, leafO}, 1, true, max)
	geo("shift left", []int{4600, leafO, leafO}, 1, true, max)
	geo("shift right", []int{leafO, leafO, 4600}, 1, true, max)
	geo("unshift left", []int{leafO, leafU, leafU}, 1, false, max)
	geo("unshift right", []int{leafU, leafU, leafO}, 1, false, max)
	geo("merge", []int{leafU, leafU, leafU}, 1, false, max)
	geo("merge first", []int{leafU, leafU}, 0, false, max)
	for _, k := range []int{nlMerge, nlSplit, nlSepA} {
		for _, ld := range [][]int{{nlU, nlU, nlU}, {nlO, nlO, nlO}, {nlO, nlU, nlO}, {nlU, nlO, nlU}} {
			var nodes []nlNode
			for _, l := range ld {
				nodes = append(nodes, nlNode{l, []int{maxSep}})
			}
			tload := []int{2790, leafO, 4200}[k]
			g, target := nlGeom(nodes, 257, 1, -1, tload, true)
			if g == nil {
				continue
			}
			for i, o := range nlOp(g, target, k) {
				add(fmt.Sprintf("ordered/nonleafs %v/%d/%d", ld, k, i), Path{Ord: true, Geom: g, Ops: []Op{o}})
			}
		}
	}
	for _, sl := range []int{1, 2, 3, 5, 8, 16, 4096, 4097} {
		for _, grow := range []bool{true, false} {
			n := minItems(sl)
			if grow {
				n = maxItems(sl)
			}
			tg := &TableGeom{Slots: sl, Items: tableItems(n)}
			var ops []Op
			for i := 0; i < 3; i++ {
				if grow {
					r := sweepRec(false, 2, 900000+i)
					ops = append(ops, Op{Kind: opSet, K: r.Key, V: r.Val, Want: true})
				} else if i < n {
					ops = append(ops, Op{Kind: opClear, K: tg.Items[n-1-i].Key, Want: true})
				}
			}
			if sl < 100 {
				ops = append(ops, Op{Kind: opReopen})
			}
			add(fmt.Sprintf("hash/table %d/%v", sl, grow), Path{Table: tg, Ops: ops})
		}
	}
	return out
}

// monEnv: every result, the contents, the structure and foreign space.
func monEnv() *Mon {
	return &Mon{after: badResult, final: func(s *Subj, p *Path) string {
		if m := contentsFinal(s, p); m != "" {
			return m
		}
		var bad string
		if s.ord {
			bad = closedStruct(s)
		} else {
			bad = closedTableBad(s)
		}
		if bad == "" && p.Env.Pre != nil {
			bad = s.foreignBad()
		}
		return bad
	}}
}

// foreignBad checks the foreign space made before the dictionary.
func (s *Subj) foreignBad() (bad string) {
	if m := s.close(); m != "" {
		return m
	}
	s.env.image(func(img Image, _ int64) {
		for _, a := range s.env.kept {
			var b []byte
			if s.env.Cfg.Pre.Aligned {
				b = img.Aligned(a)
			} else {
				b = img.Space(a)
			}
			if len(b) < s.env.Cfg.Pre.Size {
				bad = "foreign space is gone"
				return
			}
			for _, c := range b[:s.env.Cfg.Pre.Size] {
				if c != preByte {
					bad = "foreign space is changed"
					return
				}
			}
		}
	})
	if m := s.open(false); m != "" && bad == "" {
		bad = m
	}
	return
}

// countEvents runs a path and counts allocations and releases.
func countEvents(p Path) (int, string) {
	p.Env = EnvCfg{Base: lowBase, Relocate: 1}
	tmpl := template(&p)
	s, bad := runPath(&p, tmpl, monMap(), 0)
	n := s.env.eventCount()
	s.end()
	if tmpl != nil {
		tmpl.drop()
	}
	return n, bad
}

func envTasks(tier string) []Task {
	th := tier == "thorough"
	var ts []Task
	seeds := envSeeds(th)
	const shards = 12
	for sh := 0; sh < shards; sh++ {
		sh := sh
		ts = append(ts, pathTask(fmt.Sprintf("events/%d", sh), "moving the mapping at every single event and pair of events of every seed history; everything else at extremes", false, monEnv,
			func(t *T, yield func(Path) bool) {
				for i, sd := range seeds {
					if i%shards != sh {
						continue
					}
					p := sd.path
					n, bad := countEvents(p)
					if bad != "" {
						p.Env = EnvCfg{Base: lowBase, Relocate: 1}
						t.fail(p, "%s", bad)
						return
					}
					big := p.Table != nil && p.Table.Slots > 100 || p.Geom != nil && len(p.Geom.Leafs) > 50
					t.max("events", n)
					for a := 0; a < n; a++ {
						p.Env = EnvCfg{Base: lowBase, Fill: 0xA5, Relocate: 2, At: []int{a}}
						if !yield(p) {
							return
						}
						for b := a + 1; b < n; b++ {
							if (big || !th) && b > a+2 && (a*b)%7 != 0 {
								continue
							}
							p.Env = EnvCfg{Base: lowBase, Fill: 0xA5, Relocate: 2, At: []int{a, b}}
							if !yield(p) {
								return
							}
						}
					}
					for _, reuse := range []int{0, 1, 2} {
						for _, fill := range []int{0, 0xA5, 0xFF, 256} {
							for _, slack := range []int{0, 1, 13, 300} {
								for _, base := range []int64{lowBase, 1 << 20, 1<<31 - 8192, 1<<32 - 16384, highBase} {
									for _, rel := range []int{0, 1} {
										if (big || !th) && (reuse+fill+slack+int(base>>13)+rel)%3 != 0 {
											continue
										}
										p.Env = EnvCfg{Base: base, Reuse: reuse, Fill: fill, Slack: slack, Relocate: rel}
										if !yield(p) {
											return
										}
									}
								}
							}
						}
					}
				}
			}))
	}
	// large tables: directories and their table are allocated and released
	type bigTable struct {
		slots, spare, wide int
		grow               bool
	}
	bigs := []bigTable{{8192, 0, 0, true}, {8194, 0, 0, false}, {16384, 0, 0, true}, {12290, 1, 1, false}, {32768, 0, 0, true}, {16386, 0, 1, false}}
	if th {
		bigs = append(bigs, bigTable{12288, 0, 1, true}, bigTable{20480, 0, 0, true}, bigTable{12290, 0, 0, false}, bigTable{28674, 1, 1, false},
			bigTable{32768, 0, 1, true}, bigTable{36866, 0, 0, false}, bigTable{65536, 0, 0, true})
	}
	for i := range bigs {
		b := bigs[i]
		ts = append(ts, pathTask(fmt.Sprintf("tables/%d-%d-%d", b.slots, b.spare, b.wide), "a table which gets or loses a directory of slots: moving the mapping at every single event, and extremes", false, monEnv,
			func(t *T, yield func(Path) bool) {
				n := minItems(b.slots)
				if b.grow {
					n = maxItems(b.slots)
				}
				tg := &TableGeom{Slots: b.slots, Spare: b.spare, Wide: b.wide, Items: tableItems(n)}
				p := Path{Table: tg}
				for i := 0; i < 2; i++ {
					if b.grow {
						r := sweepRec(false, 2, 900000+i)
						p.Ops = append(p.Ops, Op{Kind: opSet, K: r.Key, V: r.Val, Want: true})
					} else {
						p.Ops = append(p.Ops, Op{Kind: opClear, K: tg.Items[n-1-i].Key, Want: true})
					}
				}
				events, bad := countEvents(p)
				if bad != "" {
					p.Env = EnvCfg{Base: lowBase, Relocate: 1}
					t.fail(p, "%s", bad)
					return
				}
				t.max("events", events)
				for a := 0; a < events; a++ {
					p.Env = EnvCfg{Base: lowBase, Fill: 0xA5, Relocate: 2, At: []int{a}}
					if !yield(p) {
						return
					}
				}
				for _, e := range []EnvCfg{{Base: lowBase, Fill: 256, Reuse: 1}, {Base: highBase, Fill: 0xFF, Slack: 300, Reuse: 2}, {Base: 1<<32 - 65536, Slack: 1, Relocate: 1}} {
					p.Env = e
					if !yield(p) {
						return
					}
				}
			}))
	}
	// files with foreign space before, so that the mapping grows at other events
	pres := []Pre{}
	counts := func(max, step int) {
		for c := 0; c <= max; c += step {
			for _, q := range []struct {
				size    int
				aligned bool
			}{{33000, false}, {10000, false}, {4000, false}, {8192, true}, {65536, true}} {
				for free := 0; free < 3; free++ {
					if c == 0 && free > 0 {
						continue
					}
					pres = append(pres, Pre{q.size, c, q.aligned, free})
				}
			}
		}
	}
	if th {
		counts(160, 1)
	} else {
		counts(48, 3)
		for c := 94; c <= 106; c++ {
			pres = append(pres, Pre{10000, c, false, 0})
		}
		for c := 28; c <= 34; c++ {
			pres = append(pres, Pre{33000, c, false, 0})
		}
	}
	const rsh = 4
	for sh := 0; sh < rsh; sh++ {
		sh := sh
		ts = append(ts, pathTask(fmt.Sprintf("real/foreign/%d", sh), "the basic histories in files with every amount of foreign space of several sizes before, some of it released, on the real storage", true, monEnv,
			func(t *T, yield func(Path) bool) {
				n := 0
				for i := range pres {
					pre := pres[i]
					for j := range seeds {
						if seeds[j].path.Geom != nil || seeds[j].path.Table != nil {
							continue
						}
						n++
						if n%rsh != sh {
							continue
						}
						p := seeds[j].path
						p.Env = EnvCfg{Pre: &pre}
						if !yield(p) {
							return
						}
					}
				}
			}))
	}
	ts = append(ts, pathTask("real/seeds", "the seed histories with some foreign space before, on the real storage", true, monEnv,
		func(t *T, yield func(Path) bool) {
			ps := []*Pre{nil, {10000, 7, false, 1}, {33000, 3, false, 0}, {8192, 20, true, 1}}
			for i, sd := range seeds {
				for k, pre := range ps {
					if !th && (i+k)%2 == 0 {
						continue
					}
					p := sd.path
					p.Env = EnvCfg{Pre: pre}
					if !yield(p) {
						return
					}
				}
			}
		}))
	// growth on the real storage: the mapping moves as the file doubles
	for i, ord := range []bool{true, false} {
		w := []sweep{{ord: ord, n: 1500, pat: 0, build: 4, clear: 4, final: 2}, {ord: ord, n: 1200, pat: 2, build: 0, clear: 3, reopen: 100, final: 2}}
		if th {
			w = append(w, sweep{ord: ord, n: 12000, pat: 0, build: 4, clear: 4, final: 3}, sweep{ord: ord, n: 12000, pat: 2, build: 0, clear: 1, final: 3})
		}
		x := sweepX(fmt.Sprintf("real/growth/%d", i), w)
		x.real = true
		ts = append(ts, tasksOf([]xp{x}, monEnv)...)
	}
	// the model at extremes along longer histories
	for i, ord := range []bool{true, false} {
		var w []sweep
		for j, e := range []EnvCfg{{Base: lowBase, Fill: 256, Reuse: 1}, {Base: highBase, Fill: 0xFF, Slack: 300, Reuse: 2, Relocate: 1}, {Base: 1<<32 - 65536, Fill: 0, Slack: 1}} {
			n := 400
			if th {
				n = 3000
			}
			w = append(w, sweep{ord: ord, env: e, n: n, pat: []int{0, 2, 2}[j], build: 4 - j, clear: 4 - 2*j, reopen: []int{0, 30, 0}[j], final: 2})
		}
		ts = append(ts, tasksOf([]xp{sweepX(fmt.Sprintf("extremes/%d", i), w)}, monEnv)...)
	}
	return ts
}
