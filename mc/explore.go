package main

import (
	"encoding/json"
	"fmt"
)

// xp is an explorer: a way of enumerating executions, to be combined with the
// monitor of a property.
type xp struct {
	name  string
	bound string
	ord   bool
	real  bool
	run   func(t *T, m *Mon)
}

// tasksOf combines explorers with a monitor.
func tasksOf(xs []xp, mk func() *Mon) []Task {
	var ts []Task
	for _, x := range xs {
		x := x
		ts = append(ts, Task{
			Name: x.name, Real: x.real, Bound: x.bound,
			Run: func(t *T) { x.run(t, mk()) },
			Replay: func(raw json.RawMessage) string {
				return pathReplay(mk())(raw)
			},
		})
	}
	return ts
}

// ---- alphabets

func setOps(kind int, keys []string, vals []string, want bool) []Op {
	var ops []Op
	for _, k := range keys {
		for _, v := range vals {
			ops = append(ops, Op{Kind: kind, K: []byte(k), V: []byte(v), Want: want})
		}
	}
	return ops
}

func keyOps(kind int, keys []string, want bool) []Op {
	var ops []Op
	for _, k := range keys {
		ops = append(ops, Op{Kind: kind, K: []byte(k), Want: want})
	}
	return ops
}

func cat(os ...[]Op) []Op {
	var r []Op
	for _, o := range os {
		r = append(r, o...)
	}
	return r
}

func rep(c byte, n int) string { return string(fillBytes(c, n)) }

// ordAlphabet: keys sharing prefixes around the limit of what is stored in place.
func ordAlphabet(which int) []Op {
	P := rep('p', 249)
	var keys, vals []string
	switch which {
	case 0:
		keys = []string{"", "a", P + rep('p', 7), P + rep('p', 8)}
		vals = []string{"", rep('v', 128), rep('w', 129)}
	case 1:
		keys = []string{P + rep('p', 8), P + rep('p', 7) + "q" + rep('p', 43), P + rep('p', 51), P}
		vals = []string{"x", rep('v', 121), rep('w', 300)}
	case 2:
		keys = []string{"\x00", "\x00\x00", "\xff", "MIN_KEY", "MAX_KEY"}
		vals = []string{"", "1"}
	case 3: // lengths beyond 16 bits
		keys = []string{rep('b', 65535), rep('b', 65536), rep('b', 65535) + "c" + rep('b', 5000)}
		vals = []string{"", rep('w', 70000)}
	}
	vx := []string{rep('x', 130)}
	ops := cat(setOps(opSet, keys, vals, true), setOps(opSet, keys, vx, false),
		setOps(opSetX, keys, vals[:1], true), setOps(opSetX, keys, vx, false),
		setOps(opSetNX, keys, vals[1:2], true), setOps(opSetNX, keys, vx, false),
		keyOps(opClear, keys, true), keyOps(opClear, keys[:2], false), keyOps(opTest, keys, true), keyOps(opTest, keys[:1], false))
	for _, m := range []int{1, 2} {
		ops = append(ops, Op{Kind: opTest, Mark: m, Want: true}, Op{Kind: opClear, Mark: m, Want: true}, Op{Kind: opSetX, Mark: m, V: []byte(vals[1]), Want: true})
	}
	ops = append(ops, nilOps(keys)...)
	if which < 2 {
		// differs from another value behind what is stored in place only
		v := []byte(vals[2])
		v[len(v)-1]++
		ops = append(ops, Op{Kind: opSetX, K: []byte(keys[1]), V: v}, Op{Kind: opSet, K: []byte(keys[2]), V: v, Want: true})
	}
	return append(ops, Op{Kind: opReopen})
}

// nilOps lists operations with an empty key or value passed as nil.
func nilOps(keys []string) []Op {
	k := []byte(keys[0])
	ops := []Op{{Kind: opSet, K: k, Nil: true}, {Kind: opSetX, K: k, Nil: true}, {Kind: opSetNX, K: k, Nil: true}, {Kind: opSetX, K: k, Nil: true, Want: true}}
	if len(k) == 0 {
		ops = append(ops, Op{Kind: opTest, Nil: true, Want: true}, Op{Kind: opClear, Nil: true, Want: true},
			Op{Kind: opSet, V: []byte("nil"), Nil: true, Want: true}, Op{Kind: opSetNX, V: []byte("nil"), Nil: true})
	}
	return ops
}

// dictAlphabet lists operations on up to max keys.
func dictAlphabet(which, max int) []Op {
	var keys, vals []string
	switch which {
	case 0:
		keys = []string{"", "a", rep('k', 24), rep('k', 25)}
		vals = []string{"", rep('v', 127), rep('w', 128)}
	case 1: // equal 64-bit sums
		a, b := collision()
		keys = []string{a, b, a + "+" + rep('s', 30), b + "+" + rep('s', 30)}
		vals = []string{"", "1", rep('w', 300)}
	case 2: // all in one chain
		keys = chainKeys(5, 6, 0, false)
		vals = []string{"", "12"}
	case 3: // long ones in one chain
		keys = append(chainKeys(3, 6, 1, true), rep('z', 300))
		vals = []string{"", rep('9', 126)}
	case 4: // lengths beyond 16 bits
		keys = []string{rep('b', 65535), rep('b', 65536), rep('b', 65535) + "c" + rep('b', 5000)}
		vals = []string{"", rep('w', 70000)}
	}
	if len(keys) > max {
		keys = keys[:max]
	}
	vx := []string{rep('x', 130)}
	ops := cat(setOps(opSet, keys, vals, true), setOps(opSet, keys, vx, false),
		setOps(opSetX, keys, vals[:1], true), setOps(opSetX, keys, vx, false),
		setOps(opSetNX, keys, vals[1:2], true), setOps(opSetNX, keys, vx, false),
		keyOps(opClear, keys, true), keyOps(opClear, keys[:2], false), keyOps(opTest, keys, true), keyOps(opTest, keys[:1], false))
	ops = append(ops, nilOps(keys)...)
	return append(ops, Op{Kind: opReopen})
}

// collision returns two short keys with the same 64-bit FNV-1a sum.
func collision() (string, string) {
	a, b := "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"
	if fnv64a([]byte(a)) != fnv64a([]byte(b)) {
		panic("no collision")
	}
	return a, b
}

// chainKeys returns n keys whose sums agree in the given number of low bits.
func chainKeys(n, bits int, want uint64, long bool) []string {
	var ks []string
	for i := 0; len(ks) < n; i++ {
		k := fmt.Sprintf("c%d", i)
		if long {
			k += rep('.', 30)
		}
		if fnv64a([]byte(k))&(1<<uint(bits)-1) == want {
			ks = append(ks, k)
		}
	}
	return ks
}

func bfsX(name, bound string, ord bool, env EnvCfg, alpha []Op, depth, every, max int) xp {
	return xp{name: name, bound: bound, ord: ord, run: func(t *T, m *Mon) {
		b := &BFS{Start: Path{Ord: ord, Env: env}, Alphabet: alpha, Depth: depth, Mon: m, Every: every, MaxStates: max}
		b.Run(t)
	}}
}

// ---- sweeps: long histories, checked all along

type sweep struct {
	ord    bool
	env    EnvCfg
	n      int
	pat    int // sizes
	build  int // order of building
	clear  int // order of clearing
	reopen int // reopen after every so many operations
	final  int // number of prefixes at which the final oracle is applied
	left   int // stop clearing when so many records are left
	churn  int // 0: replace some values; then, 1: shorten all values, 2: shorten and lengthen, 3: lengthen and shorten
}

func (w sweep) String() string {
	return fmt.Sprintf("n=%d sizes=%d build=%d clear=%d reopen=%d churn=%d env=%x/%d", w.n, w.pat, w.build, w.clear, w.reopen, w.churn, w.env.Fill, w.env.Relocate)
}

func sweepRec(ord bool, pat, i int) Rec {
	k := fmt.Sprintf("%06d", i)
	if ord {
		switch pat {
		case 0: // maximal
			return Rec{pad(k, 261), fillBytes(byte(i*37), 133)}
		case 1: // small
			return Rec{[]byte(k), []byte{byte(i)}}
		case 2: // mixed
			switch i % 4 {
			case 0:
				return Rec{pad(k, 261), fillBytes(byte(i*37), 150)}
			case 1:
				return Rec{[]byte(k), nil}
			case 2:
				return Rec{pad(k, 100), fillBytes(byte(i*37), 90)}
			default:
				return Rec{pad(k, 256), fillBytes(byte(i*37), 128)}
			}
		case 3: // long keys
			return Rec{pad(k, 256), nil}
		default: // long values, blocks of long keys
			if (i/40)%2 == 0 {
				return Rec{[]byte(k), fillBytes(byte(i*37), 128)}
			}
			return Rec{pad(k, 263), fillBytes(byte(i*37), 120)}
		}
	}
	switch pat {
	case 0:
		return Rec{[]byte(k), []byte{byte(i)}}
	case 1:
		return Rec{pad(k, 25), fillBytes(byte(i*37), i%3*70)}
	default:
		switch i % 5 {
		case 0:
			return Rec{pad(k, 300), fillBytes(byte(i*37), 200)}
		case 1:
			return Rec{[]byte(k), nil}
		default:
			return Rec{pad(k, 22+i%5), fillBytes(byte(i*37), i%140)}
		}
	}
}

func order(kind, n int) []int {
	idx := make([]int, 0, n)
	switch kind {
	case 0:
		for i := 0; i < n; i++ {
			idx = append(idx, i)
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			idx = append(idx, i)
		}
	case 2: // both ends inwards
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			idx = append(idx, i)
			if i != j {
				idx = append(idx, j)
			}
		}
	case 3: // middle outwards
		for d := 0; len(idx) < n; d++ {
			if i := n/2 + d; i < n {
				idx = append(idx, i)
			}
			if i := n/2 - 1 - d; i >= 0 {
				idx = append(idx, i)
			}
		}
	default:
		st := n*618/1000 + kind
		for n > 0 && gcd(st, n) != 1 {
			st++
		}
		for i, x := 0, 0; i < n; i, x = i+1, (x+st)%n {
			idx = append(idx, x)
		}
	}
	return idx
}

func (w sweep) path() Path {
	p := Path{Ord: w.ord, Env: w.env}
	add := func(o Op) {
		p.Ops = append(p.Ops, o)
		if w.reopen > 0 && len(p.Ops)%(w.reopen+1) == w.reopen {
			p.Ops = append(p.Ops, Op{Kind: opReopen})
		}
	}
	for j, i := range order(w.build, w.n) {
		r := sweepRec(w.ord, w.pat, i)
		kind := opSet
		if j%3 == 1 {
			kind = opSetNX
		}
		add(Op{Kind: kind, K: r.Key, V: r.Val, Want: j%2 == 0, Nil: j%4 < 2})
	}
	// replace some values by longer and shorter ones
	for i := 0; i < w.n; i += 7 {
		r := sweepRec(w.ord, w.pat, i)
		v := fillBytes(byte(i*41+1), []int{0, 128, 129, 50}[i%4])
		add(Op{Kind: []int{opSet, opSetX}[i%2], K: r.Key, V: v, Want: i%3 == 0})
	}
	churn := func(ord int, long bool) {
		for _, i := range order(ord, w.n) {
			r := sweepRec(w.ord, w.pat, i)
			o := Op{Kind: []int{opSetX, opSet}[i%2], K: r.Key, Nil: i%4 < 2}
			if long {
				o.V = fillBytes(byte(i*43+7), []int{128, 133}[i%2])
			}
			add(o)
		}
	}
	switch w.churn {
	case 1:
		churn(w.clear, false)
	case 2:
		churn((w.build+1)%5, false)
		churn(w.clear, true)
	case 3:
		churn(w.clear, true)
		churn((w.build+2)%5, false)
	}
	for j, i := range order(w.clear, w.n) {
		if w.n-j <= w.left {
			break
		}
		r := sweepRec(w.ord, w.pat, i)
		add(Op{Kind: opClear, K: r.Key, Want: j%2 == 0})
	}
	return p
}

// run executes the history once, judging every step, then the prefixes.
func (w sweep) run(t *T, m *Mon) {
	p := w.path()
	every := 1
	if m.state != nil && w.n > 64 {
		every = 1 + w.n/64
	}
	var cuts []int
	for j := 1; j <= w.final; j++ {
		cuts = append(cuts, len(p.Ops)*j/(w.final+1))
	}
	history(t, m, p, every, cuts)
}

func sweepX(name string, ws []sweep) xp {
	return xp{name: name, ord: ws[0].ord, bound: fmt.Sprintf("%d histories, the first: %s", len(ws), ws[0]), run: func(t *T, m *Mon) {
		for _, w := range ws {
			if t.expired() || t.failed() {
				return
			}
			w.run(t, m)
		}
		t.sample("%s", ws[len(ws)-1])
		if !isSim {
			t.Traces += int64(len(ws))
		}
	}}
}

// ---- macro operations

// macroOrd: regions of records filled, thinned out and cleared as a whole.
func macroOrd(env EnvCfg, regions, per, pat, depth, max int) xp {
	recs := func(r int) []Rec {
		var rs []Rec
		for i := 0; i < per; i++ {
			rs = append(rs, sweepRec(true, pat, r*100+i))
		}
		return rs
	}
	var groups [][]Op
	for r := 0; r < regions; r++ {
		var fill, clear, thin []Op
		rs := recs(r)
		for i := range rs {
			q := rs[i]
			if r%2 == 1 {
				q = rs[len(rs)-1-i]
			}
			fill = append(fill, Op{Kind: opSet, K: q.Key, V: q.Val})
			clear = append(clear, Op{Kind: opClear, K: q.Key, Want: true})
			if i%3 != 0 {
				thin = append(thin, Op{Kind: opClear, K: q.Key})
			}
		}
		groups = append(groups, fill, clear)
		if r%2 == 0 {
			groups = append(groups, thin)
		}
	}
	return xp{name: fmt.Sprintf("macro/regions=%d per=%d sizes=%d", regions, per, pat), ord: true,
		bound: fmt.Sprintf("all sequences of up to %d region fills, clears and thinnings (%d regions of %d records)", depth, regions, per),
		run: func(t *T, m *Mon) {
			b := &BFS{Start: Path{Ord: true, Env: env}, Groups: groups, Depth: depth, Mon: m, MaxStates: max}
			b.Run(t)
		}}
}

// macroChurn: regions of records filled and cleared, their values shortened
// and lengthened as a whole.
func macroChurn(env EnvCfg, regions, per, depth, max int) xp {
	var groups [][]Op
	for r := 0; r < regions; r++ {
		var gs [5][]Op
		for i := 0; i < per; i++ {
			k := pad(fmt.Sprintf("%06d", r*100+i), []int{40, 261}[r%2])
			gs[0] = append(gs[0], Op{Kind: opSet, K: k, V: fillBytes(byte(i*7), 90)})
			gs[1] = append(gs[1], Op{Kind: opSetX, K: k})
			gs[2] = append(gs[2], Op{Kind: opSetX, K: k, V: fillBytes(byte(i*5), 133)})
			if i%3 != 0 {
				gs[3] = append(gs[3], Op{Kind: opClear, K: k})
			}
			gs[4] = append([]Op{{Kind: opClear, K: k}}, gs[4]...)
		}
		groups = append(groups, gs[:]...)
	}
	return xp{name: fmt.Sprintf("churn/regions=%d per=%d", regions, per), ord: true,
		bound: fmt.Sprintf("all sequences of up to %d actions (fill, shorten values, lengthen values, thin out, clear) on %d regions of %d records", depth, regions, per),
		run: func(t *T, m *Mon) {
			b := &BFS{Start: Path{Ord: true, Env: env}, Groups: groups, Depth: depth, Mon: m, MaxStates: max}
			b.Run(t)
		}}
}

func macroDict(env EnvCfg, regions, per, pat, depth, max int) xp {
	var groups [][]Op
	for r := 0; r < regions; r++ {
		var fill, clear []Op
		for i := 0; i < per; i++ {
			q := sweepRec(false, pat, r*100+i)
			fill = append(fill, Op{Kind: opSet, K: q.Key, V: q.Val})
			clear = append(clear, Op{Kind: opClear, K: q.Key, Want: true})
		}
		groups = append(groups, fill, clear)
	}
	return xp{name: fmt.Sprintf("macro/regions=%d per=%d sizes=%d", regions, per, pat),
		bound: fmt.Sprintf("all sequences of up to %d region fills and clears (%d regions of %d items)", depth, regions, per),
		run: func(t *T, m *Mon) {
			b := &BFS{Start: Path{Env: env}, Groups: groups, Depth: depth, Mon: m, MaxStates: max}
			b.Run(t)
		}}
}

// ---- hash tables around sizes of interest

// tableItems makes n items which differ in short and long keys.
func tableItems(n int) []Rec {
	rs := make([]Rec, n)
	for i := range rs {
		rs[i] = sweepRec(false, []int{0, 1, 0, 0}[i%4], i)
		if i%97 == 5 {
			rs[i] = sweepRec(false, 2, i-i%5)
		}
	}
	return rs
}

const golden = 1.61803398874989484820458683436563811772030917980576286213544862270526046281890244970720720418939113748475

func maxItems(slots int) int { // the most items slots hold without growing
	return int(golden * float64(slots))
}

func minItems(slots int) int { // the fewest items slots hold without shrinking
	n := int(golden / 2 * float64(slots))
	for float64(n)/float64(slots) < golden/2 {
		n++
	}
	return n
}

// tableGrid tries growing and shrinking from tables of the given sizes.
func tableGrid(t *T, m *Mon, env EnvCfg, slots []int, steps int, alts bool) {
	tableGridOf(t, m, env, slots, steps, alts, func(n, slots int) []Rec { return tableItems(n) })
}

func tableGridOf(t *T, m *Mon, env EnvCfg, slots []int, steps int, alts bool, items func(n, slots int) []Rec) {
	for _, sl := range slots {
		if t.expired() {
			return
		}
		variants := []TableGeom{{Slots: sl}}
		need := (sl + slotsPerDir - 1) / slotsPerDir
		if alts && sl%slotsPerDir != 1 && sl >= slotsPerDir {
			// left over from shrinking
			variants = append(variants, TableGeom{Slots: sl, Spare: 1})
			if need+1 > 4 && need+1 <= 8 {
				variants = append(variants, TableGeom{Slots: sl, Spare: 1, Wide: 1})
			}
		}
		if alts && need > 4 && need <= 8 {
			variants = append(variants, TableGeom{Slots: sl, Wide: 1})
		}
		for _, g := range variants {
			for _, grow := range []bool{true, false} {
				g := g
				n := minItems(sl)
				if grow || sl == 1 {
					n = maxItems(sl)
				}
				g.Items = items(n, sl)
				p := Path{Env: env, Table: &g}
				tmpl := template(&p)
				t.States++
				var ops []Op
				for i := 0; i < steps; i++ {
					if grow {
						r := sweepRec(false, i%3, 900000+i)
						ops = append(ops, Op{Kind: opSet, K: r.Key, V: r.Val, Want: i%2 == 0})
					} else if n-1-i*(n/(steps+1)) >= 0 && n > 0 {
						r := g.Items[n-1-i*(n/(steps+1))]
						ops = append(ops, Op{Kind: opClear, K: r.Key, Want: i%2 == 0})
					}
				}
				if grow { // and back again
					for i := len(ops) - 1; i >= 0; i-- {
						ops = append(ops, Op{Kind: opClear, K: ops[i].K})
					}
				} else {
					for i := len(ops) - 1; i >= 0; i-- {
						ops = append(ops, Op{Kind: opSetNX, K: ops[i].K, V: []byte("again"), Want: true})
					}
				}
				p.Ops = ops
				var cuts []int
				if n < 200 {
					for c := 0; c <= len(ops); c++ {
						cuts = append(cuts, c)
					}
				} else {
					cuts = []int{0, 1, len(ops) / 2, len(ops)}
				}
				from := 0
				for _, c := range cuts {
					q := p
					q.Ops = ops[:c]
					s, bad := runPath(&q, tmpl, m, from)
					from = c
					if bad == "" {
						bad = finish(s, &q, m)
					}
					s.end()
					t.Transitions++
					if bad != "" {
						t.fail(q, "%s (starting from %d slots with %d items)", bad, sl, n)
						tmpl.drop()
						return
					}
				}
				tmpl.drop()
			}
		}
	}
	t.sample("tables of %v slots, %d steps of growing and shrinking from each", slots, steps)
	if !isSim {
		t.Traces += t.Transitions
	}
}

// ---- collections

// ordX lists explorers of ordered dictionaries. cost: relative cost of the
// monitor (1: cheap); greater ones get fewer cells.
func ordX(tier string, cost int) []xp {
	th := tier == "thorough"
	var xs []xp
	pick := func(q, d int) int {
		if th {
			return d
		}
		return q
	}
	cheap := func(a, b int) int {
		if cost < 2 {
			return a
		}
		return b
	}
	for w := 0; w < 3; w++ {
		xs = append(xs, bfsX(fmt.Sprintf("bfs/lengths=%d", w), "all histories over 4-5 keys and 3-4 values of lengths around the limits, merged by stored contents, to closure", true,
			envs[w%len(envs)], ordAlphabet(w), 12, 0, pick(1500, 30000)))
	}
	xs = append(xs, bfsX("bfs/wide", "all histories over 3 keys and 3 values of lengths around and beyond 2^16, merged by stored contents, to closure", true,
		envs[1], ordAlphabet(3), 12, 0, 0))
	xs = append(xs, formsX(tier, true, cost))
	shards := pick(4, 8)
	for sh := 0; sh < shards; sh++ {
		sh := sh
		xs = append(xs, xp{name: fmt.Sprintf("leafs/%d", sh), ord: true,
			bound: "trees of 1-3 leafs with loads at and around the thresholds, every kind of operation on the middle of them",
			run: func(t *T, m *Mon) {
				lg := leafGrid{t: t, mon: m, env: envs[sh%len(envs)], shard: sh, shards: shards, stride: pick([]int{1, 1, 1, 5}[cost], 1),
					sibs: []int{leafU, leafU + 1, leafU + 200, 4600, leafO - 394, leafO - 200, leafO - 13, leafO}, patterns: recPatterns, sibPats: recPatterns[:pick(2, 4)]}
				lg.run()
			}})
	}
	nsh := pick(4, 8)
	for sh := 0; sh < nsh; sh++ {
		sh := sh
		xs = append(xs, xp{name: fmt.Sprintf("nonleafs/%d", sh), ord: true,
			bound: "trees of height 2-3 with non-leaf loads at and around the thresholds, leaf merges, splits and separator changes at the first, second, middle and last leaf",
			run: func(t *T, m *Mon) {
				ng := nlGrid{t: t, mon: m, env: envs[(sh+1)%len(envs)], shard: sh, shards: nsh, stride: pick([]int{1, 1, 2, 24}[cost], 1),
					loads: []int{nlU, nlU + 1, nlU + 150, 4500, nlO - 269, nlO - 100, nlO}, pats: [][]int{{maxSep}, {60}, {maxSep, 20, 20}}}
				ng.run()
			}})
	}
	for side := 0; side < 3; side++ {
		side := side
		xs = append(xs, xp{name: fmt.Sprintf("deep/%d", side), ord: true,
			bound: "trees of height 4 whose nodes on the path to the operation are minimal or maximal",
			run: func(t *T, m *Mon) {
				for _, roots := range []int{2, 3} {
					for _, pat := range [][]int{{maxSep}, {maxSep, 120}} {
						for _, l2 := range []int{nlU, nlO} {
							for _, l1 := range []int{nlU, nlO} {
								for _, kind := range []int{nlMerge, nlSplit, nlSepA} {
									if t.expired() || t.failed() {
										return
									}
									if !th && (cost > 2 && roots == 3 || len(pat) == 2 && roots == 2) {
										continue
									}
									lf := []int{2790, leafO, 4200}[kind]
									g, target := deepGeom(l2, l1, lf, pat, side, roots)
									if g == nil {
										continue
									}
									cellRun(t, envA, g, nlOp(g, target, kind), m)
								}
							}
						}
					}
				}
			}})
	}
	for sh := 0; sh < 3; sh++ {
		xs = append(xs, chainX(tier, cost, sh, 3))
	}
	for sh := 0; sh < 2; sh++ {
		xs = append(xs, nlChainX(tier, cost, sh, 2))
	}
	for sh := 0; sh < 3; sh++ {
		xs = append(xs, stormX(tier, cost, sh, 3))
	}
	for sh := 0; sh < 2; sh++ {
		xs = append(xs, tightX(tier, cost, sh, 2))
	}
	xs = append(xs, macroOrd(envA, 5, 14, 0, pick(cheap(4, 3), 6), 0))
	xs = append(xs, macroChurn(envC, 3, 25, pick(cheap(5, 4), 7), 0))
	xs = append(xs, macroOrd(envB, 4, 60, 3, pick(cheap(4, 3), 6), 0))
	xs = append(xs, ordSweeps(tier)...)
	xs = append(xs, hugeOrd(tier, cost)...)
	return xs
}

func ordSweeps(tier string) []xp {
	th := tier == "thorough"
	var ws [6][]sweep
	if th {
		k := 0
		for pat := 0; pat < 5; pat++ {
			for b := 0; b < 5; b++ {
				for c := 0; c < 5; c++ {
					n := []int{700, 3000, 900, 1500, 900}[pat]
					ws[k%6] = append(ws[k%6], sweep{ord: true, env: envs[k%4], n: n, pat: pat, build: b, clear: c, reopen: []int{0, 0, 50}[k%3], final: 4, churn: (k + k/5) % 4})
					k++
				}
			}
		}
		ws[0] = append(ws[0], sweep{ord: true, env: envB, n: 9000, pat: 0, build: 0, clear: 4, final: 4}, sweep{ord: true, env: envB, n: 9000, pat: 3, build: 4, clear: 3, final: 2})
		ws[1] = append(ws[1], sweep{ord: true, env: envA, n: 9000, pat: 0, build: 4, clear: 0, final: 4}, sweep{ord: true, env: envC, n: 40000, pat: 1, build: 4, clear: 1, final: 2})
	} else {
		for k := 0; k < 10; k++ {
			n := []int{260, 1200, 400, 500, 400}[k%5]
			ws[k%5] = append(ws[k%5], sweep{ord: true, env: envs[k%4], n: n, pat: k % 5, build: (k*2 + k/5) % 5, clear: (k*3 + 1 + k/5) % 5, reopen: []int{0, 0, 50}[k%3], final: 2, churn: (k + 1) % 4})
		}
		ws[5] = append(ws[5], sweep{ord: true, env: envB, n: 4000, pat: 0, build: 4, clear: 4, final: 1})
	}
	var xs []xp
	for i := range ws {
		xs = append(xs, sweepX(fmt.Sprintf("sweep/%d", i), ws[i]))
	}
	return xs
}

func dictX(tier string, cost int) []xp {
	th := tier == "thorough"
	pick := func(q, d int) int {
		if th {
			return d
		}
		return q
	}
	var xs []xp
	for w := 0; w < 4; w++ {
		xs = append(xs, bfsX(fmt.Sprintf("bfs/items=%d", w), "all histories over 3 keys and 3-4 values of lengths around the limits, with equal sums and slots, merged by stored contents, to closure", false,
			envs[w%len(envs)], dictAlphabet(w, 3), 16, 0, 0))
		d := 16
		bound := "to closure"
		if !th {
			if d = 4; w == 2 || cost > 1 {
				d = 3
			}
			if cost == 0 {
				d++
				if w != 2 {
					d = 6
				}
			}
			bound = fmt.Sprintf("up to %d operations", d)
		}
		xs = append(xs, bfsX(fmt.Sprintf("bfs/more items=%d", w), "all histories over 4-5 keys and 3-4 values of lengths around the limits, with equal sums and slots, merged by stored contents, "+bound, false,
			envs[(w+1)%len(envs)], dictAlphabet(w, 9), d, 0, 0))
	}
	xs = append(xs, bfsX("bfs/wide items", "all histories over 3 keys and 3 values of lengths around and beyond 2^16, merged by stored contents, to closure", false,
		envs[1], dictAlphabet(4, 3), 12, 0, 0))
	xs = append(xs, formsX(tier, false, cost))
	var small []int
	for i := 1; i <= pick([]int{130, 40, 40}[cost], 300); i++ {
		small = append(small, i)
	}
	for sh := 0; sh < 2; sh++ {
		sh := sh
		xs = append(xs, xp{name: fmt.Sprintf("tables/small/%d", sh), bound: fmt.Sprintf("tables of every number of slots up to %d, filled to the limit of growing and of shrinking", len(small)),
			run: func(t *T, m *Mon) {
				tableGrid(t, m, envs[sh], small, pick(5, 8), false)
			}})
	}
	large := []int{4095, 4096, 4097, 4098, 8193, 8194, 12290, 16386, 32770}
	if th || cost == 0 {
		large = []int{1023, 1024, 2047, 2048, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 8194, 12288, 12289, 12290, 16384, 16385, 16386, 20480, 20481, 24578, 28674}
	}
	for i, l := range large {
		l := l
		env := envs[i%4]
		xs = append(xs, xp{name: fmt.Sprintf("tables/%d", l), bound: fmt.Sprintf("tables of %d slots, with and without a spare directory, filled to the limit of growing and of shrinking", l),
			run: func(t *T, m *Mon) { tableGrid(t, m, env, []int{l}, pick(4, 6), true) }})
	}
	if th {
		for i, l := range []int{32767, 32768, 32769, 32770, 36866, 40962, 65536, 65537, 65538} {
			l := l
			env := envs[i%4]
			xs = append(xs, xp{name: fmt.Sprintf("tables/%d", l), bound: fmt.Sprintf("tables of %d slots, with and without a spare directory, filled to the limit of growing and of shrinking", l),
				run: func(t *T, m *Mon) { tableGrid(t, m, env, []int{l}, 4, true) }})
		}
	} else {
		xs = append(xs, xp{name: "tables/32768", bound: "tables of 32768 slots, filled to the limit of growing and of shrinking",
			run: func(t *T, m *Mon) { tableGrid(t, m, envB, []int{32768}, 3, true) }})
	}
	xs = append(xs, macroDict(envA, 4, 9, 2, pick(5, 8), 0))
	xs = append(xs, dictSweeps(tier)...)
	xs = append(xs, hugeDict(tier)...)
	xs = append(xs, skewX(tier, cost)...)
	return xs
}

func dictSweeps(tier string) []xp {
	th := tier == "thorough"
	var ws [4][]sweep
	if th {
		k := 0
		for pat := 0; pat < 3; pat++ {
			for b := 0; b < 2; b++ {
				for c := 0; c < 5; c++ {
					ws[k%4] = append(ws[k%4], sweep{env: envs[k%4], n: 1500, pat: pat, build: b * 4, clear: c, reopen: []int{0, 0, 50}[k%3], final: 4, churn: (k + k/5) % 4})
					k++
				}
			}
		}
		ws[0] = append(ws[0], sweep{env: envB, n: 15000, pat: 0, build: 0, clear: 4, final: 4}, sweep{env: envB, n: 60000, pat: 0, build: 4, clear: 0, final: 2})
		ws[1] = append(ws[1], sweep{env: envD, n: 15000, pat: 2, build: 4, clear: 1, reopen: 997, final: 4})
	} else {
		for k := 0; k < 6; k++ {
			ws[k%3] = append(ws[k%3], sweep{env: envs[k%4], n: 500, pat: k % 3, build: (k * 4) % 5, clear: (k*3 + 1) % 5, reopen: []int{0, 0, 50}[k%3], final: 3, churn: (k + 1) % 4})
		}
		ws[3] = append(ws[3], sweep{env: envB, n: 8000, pat: 0, build: 0, clear: 4, final: 2})
	}
	var xs []xp
	for i := range ws {
		xs = append(xs, sweepX(fmt.Sprintf("sweep/%d", i), ws[i]))
	}
	return xs
}

// realX lists explorers which run on the real storage.
func realX(tier string, ord bool, cost int) []xp {
	th := tier == "thorough"
	pick := func(q, d int) int {
		if th {
			return d
		}
		return q
	}
	var xs []xp
	if ord {
		xs = append(xs, xp{name: "real/leafs", ord: true, real: true, bound: "a selection of the leaf cells, on the real storage",
			run: func(t *T, m *Mon) {
				lg := leafGrid{t: t, mon: m, env: envA, shards: 1, stride: pick(97*cost, 11),
					sibs: []int{leafU, leafU + 1, 4600, leafO - 200, leafO}, patterns: recPatterns[:2], sibPats: recPatterns[:2]}
				lg.run()
				t.Traces += t.Transitions
			}})
		xs = append(xs, xp{name: "real/nonleafs", ord: true, real: true, bound: "a selection of the non-leaf cells, on the real storage",
			run: func(t *T, m *Mon) {
				ng := nlGrid{t: t, mon: m, env: envA, shards: 1, stride: pick(301*cost, 37),
					loads: []int{nlU, nlU + 150, 4500, nlO}, pats: [][]int{{maxSep}, {60}}}
				ng.run()
				t.Traces += t.Transitions
			}})
		w := []sweep{{ord: true, n: 300, pat: 0, build: 4, clear: 3, final: 2, churn: 2}, {ord: true, n: 400, pat: 2, build: 1, clear: 0, reopen: 40, final: 1, churn: 1}}
		if th {
			for k := 0; k < 10; k++ {
				w = append(w, sweep{ord: true, n: 900, pat: k % 5, build: (k*2 + k/5) % 5, clear: (k*3 + 1) % 5, reopen: []int{0, 30}[k%2], final: 3})
			}
			w = append(w, sweep{ord: true, n: 9000, pat: 0, build: 4, clear: 4, final: 2})
		}
		x := sweepX("real/sweeps", w)
		x.real = true
		xs = append(xs, x)
		xs = append(xs, realBFS("real/bfs", true, ordAlphabet(0), 2))
		return xs
	}
	w := []sweep{{n: 400, pat: 2, build: 0, clear: 4, final: 2}, {n: 300, pat: 1, build: 4, clear: 0, reopen: 40, final: 1}}
	if th {
		for k := 0; k < 9; k++ {
			w = append(w, sweep{n: 2000, pat: k % 3, build: (k * 4) % 5, clear: (k*3 + 1) % 5, reopen: []int{0, 30}[k%2], final: 3})
		}
		w = append(w, sweep{n: 15000, pat: 0, build: 4, clear: 4, final: 2}, sweep{n: 60000, pat: 0, build: 0, clear: 4, final: 1})
	}
	x := sweepX("real/sweeps", w)
	x.real = true
	xs = append(xs, x)
	xs = append(xs, xp{name: "real/tables", real: true, bound: "tables around directory borders, on the real storage", run: func(t *T, m *Mon) {
		sl := []int{1, 2, 3, 4, 5, 8, 4096}
		if th {
			sl = append(sl, 4097, 8192, 8193, 32768)
		}
		tableGrid(t, m, envA, sl, 3, true)
	}})
	xs = append(xs, realBFS("real/bfs", false, dictAlphabet(1, 9), 2))
	return xs
}

// realBFS enumerates all histories of the given length on the real storage.
func realBFS(name string, ord bool, alpha []Op, depth int) xp {
	return xp{name: name, ord: ord, real: true, bound: fmt.Sprintf("all histories of up to %d operations on a small dictionary, on the real storage", depth),
		run: func(t *T, m *Mon) {
			start := Path{Ord: ord}
			if depth == 2 {
				// from a dictionary with some contents
				for i, o := range alpha {
					if o.Kind == opSet && i%3 == 0 && len(start.Ops) < 3 {
						start.Ops = append(start.Ops, o)
					}
				}
			}
			n := len(alpha)
			total := 1
			for d := 0; d < depth; d++ {
				total *= n
			}
			for x := 0; x < total; x++ {
				if t.expired() {
					break
				}
				p := Path{Ord: ord}
				p.Ops = append(p.Ops, start.Ops...)
				for d, y := 0, x; d < depth; d, y = d+1, y/n {
					p.Ops = append(p.Ops, alpha[y%n])
				}
				s, bad := runPath(&p, nil, m, 0)
				if bad == "" && x%5 == 0 {
					bad = finish(s, &p, m)
				}
				s.end()
				t.Transitions++
				t.Traces++
				if bad != "" {
					t.fail(p, "%s", bad)
					return
				}
			}
			t.States = t.Transitions
			t.sample("%v, then all sequences of %d of %d operations", start.Ops, depth, n)
		}}
}
