package main

import "fmt"

// ---- C20: files written by the pinned version

type goldenFile struct {
	name string
	p    Path
}

// goldens lists the histories which led to the files in the directory golden,
// written by the pinned version ("mc golden").
func goldens() (gs []goldenFile) {
	add := func(name string, p Path) { gs = append(gs, goldenFile{name, p}) }
	cut := func(p Path, num, den int) Path {
		p.Ops = p.Ops[:len(p.Ops)*num/den]
		return p
	}
	// orders of building with which the pinned version does not fail
	grown, shrunk := []int{2, 2, 3, 2, 2}, []int{4, 4, 3, 4, 4}
	for _, ord := range []bool{true, false} {
		kind := "dict"
		pats := 3
		if ord {
			kind = "ordered"
			pats = 5
		}
		add(kind+"-empty", Path{Ord: ord})
		add(kind+"-emptied", sweep{ord: ord, n: 60, pat: 2, build: 0, clear: 1}.path())
		for pat := 0; pat < pats; pat++ {
			add(fmt.Sprintf("%s-small-%d", kind, pat), cut(sweep{ord: ord, n: 7, pat: pat, build: 4}.path(), 1, 2))
			add(fmt.Sprintf("%s-grown-%d", kind, pat), cut(sweep{ord: ord, n: 200, pat: pat, build: grown[pat]}.path(), 9, 20))
			add(fmt.Sprintf("%s-shrunk-%d", kind, pat), cut(sweep{ord: ord, n: 300, pat: pat, build: shrunk[pat], clear: 3}.path(), 4, 5))
		}
	}
	add("ordered-high", cut(sweep{ord: true, n: 700, pat: 0, build: 4}.path(), 1, 2))
	add("ordered-many", cut(sweep{ord: true, n: 3000, pat: 1, build: 0}.path(), 1, 2))
	add("dict-many", cut(sweep{n: 8000, pat: 0, build: 0}.path(), 1, 2))
	add("dict-spare", cut(sweep{n: 9000, pat: 0, build: 0, clear: 0}.path(), 3, 4))
	var ops []Op
	for i, n := range []int{0, 1, 128, 129, 256, 257, 4090, 8192, 16500, 16632, 16640, 40000, 70000} {
		ops = append(ops, Op{Kind: opSet, K: fillBytes(byte(i), n), V: fillBytes(byte(i+50), 70000-n)})
	}
	add("ordered-long", Path{Ord: true, Ops: ops})
	add("dict-long", Path{Ops: ops})
	return
}

// goldenOps are operations to be tried on a dictionary with the records given.
func goldenOps(s *Subj, th bool) (ops []Op) {
	ks := s.keys()
	step := 1
	if lim := 12; len(ks) > lim {
		if th {
			lim = 60
		}
		step = len(ks)/lim + 1
	}
	for i := 0; i < len(ks); i += step {
		k := []byte(ks[i])
		ops = append(ops, Op{Kind: opClear, K: k, Want: true}, Op{Kind: opSet, K: k, V: fillBytes('g', 5*(i%60)), Want: true},
			Op{Kind: opSetNX, K: append(append([]byte(nil), k...), '!'), V: []byte("new"), Want: true}, Op{Kind: opTest, K: k, Want: true})
	}
	return append(ops, Op{Kind: opSet, K: []byte("zz"), V: fillBytes('z', 300)}, Op{Kind: opReopen})
}

func goldenList(tier string, check func(t *T, g *goldenFile, th bool)) []Task {
	th := tier == "thorough"
	gs := goldens()
	shards := 6
	var ts []Task
	for sh := 0; sh < shards; sh++ {
		sh := sh
		ts = append(ts, Task{Name: fmt.Sprintf("real/golden/%d", sh), Real: true,
			Bound: fmt.Sprintf("files written by the pinned version (%d): read back independently and through the interface, every of a list of operations on each, then emptied", len(gs)),
			Run: func(t *T) {
				for i := range gs {
					if i%shards == sh && !t.failed() && !t.expired() {
						check(t, &gs[i], th)
					}
				}
			}})
	}
	return ts
}
