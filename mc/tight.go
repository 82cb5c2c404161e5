package main

import "fmt"

// Tight pages: a full page hands over to a sibling whose load is chosen byte
// by byte so that it ends up at the brink of what a page may hold, and then
// the sibling itself gets the biggest addition there is.

// tightLeaf makes a full leaf of records with long keys whose smallest key
// has the stored length given.
func tightLeaf(pre string, stored int) []Rec {
	rs := []Rec{{sepKey(pre+"000", stored), []byte("v")}}
	load := recLoad(rs[0])
	for i := 1; load+maxRec <= leafO; i++ {
		rs = append(rs, mkRec(fmt.Sprintf("%s%03d", pre, 4*i), maxRec, true))
		load += maxRec
	}
	if left := leafO - load; left >= 40 {
		rs = append(rs, mkRec(pre+"999", left, true))
	}
	return rs
}

// tightIn is the insertion of a greatest record into the middle of a leaf.
func tightIn(rs []Rec, c byte) Op {
	k := append(append([]byte(nil), rs[len(rs)/2].Key[:8]...), c)
	return Op{Kind: opSet, K: pad(string(k), 261), V: fillBytes(c, 133), Want: true}
}

var tightEps = []int{-24, -16, -12, -9, -8, -7, -4, -2, -1, 0, 1, 2, 4, 7, 8, 9, 12, 16, 24}

func tightX(tier string, cost, sh, shards int) xp {
	stride := []int{1, 1, 2, 6}[cost]
	if tier == "thorough" {
		stride = 1
	}
	return xp{name: fmt.Sprintf("tight/%d", sh), ord: true,
		bound: "two neighbouring pages (leafs, non-leafs) of which one is full and gets more, the load of the other chosen byte by byte around where it becomes full too, and then gets the biggest addition",
		run: func(t *T, m *Mon) {
			cell := 0
			do := func(g *Geom, ops []Op) bool {
				p := Path{Ord: true, Env: envs[(cell/3)%4], Geom: g, Ops: ops}
				history(t, m, p, 1, nil)
				return !t.failed() && !t.expired()
			}
			skip := func() bool {
				cell++
				return !mine(cell, sh, shards, stride)
			}
			// leafs
			for _, rec := range []int{maxRec, 200, 30} {
				for _, pat := range recPatterns {
					for _, eps := range tightEps {
						for left := 0; left < 2; left++ {
							for _, n := range []int{1, 2} {
								if skip() {
									continue
								}
								sib := leafRecs("A", leafO-n*rec+eps, pat, true)
								full := leafRecs("C", leafO, []int{rec}, true)
								last := leafRecs("E", leafO, recPatterns[0], true)
								g := &Geom{Levels: [][]int{{3}}}
								si, ti := 0, 1
								if left == 1 {
									g.Leafs = [][]Rec{sib, full, last}
								} else {
									sib = leafRecs("E", leafO-n*rec+eps, pat, true)
									g.Leafs = [][]Rec{leafRecs("A", leafO, recPatterns[0], true), full, sib}
									si = 2
								}
								in := Op{Kind: opSet, K: mkRec("C001", 30, true).Key, V: []byte("w"), Want: true}
								if !do(g, []Op{in, tightIn(g.Leafs[si], 'x'), tightIn(g.Leafs[ti], 'y')}) {
									return
								}
							}
						}
					}
				}
			}
			// non-leafs
			for _, pat := range [][]int{{maxSep}, {60}, {maxSep, 20, 20}} {
				for _, tload := range []int{nlO, nlO - 257} {
					for _, parentSep := range []int{257, 12} {
						for n := 1; n <= 2; n++ {
							for _, eps := range tightEps {
								for left := 0; left < 2; left++ {
									if skip() {
										continue
									}
									sib := nlNode{nlO - n*maxSep + eps, []int{maxSep}}
									nodes := []nlNode{sib, {tload, pat}}
									si, ti := 0, 1
									if left == 0 {
										nodes = []nlNode{{tload, pat}, sib}
										si, ti = 1, 0
									}
									g := &Geom{}
									var counts, first []int
									for ni, nd := range nodes {
										lens := sepLens(nd.load, nd.pat)
										if lens == nil {
											g = nil
											break
										}
										first = append(first, len(g.Leafs))
										for i := 0; i <= len(lens); i++ {
											pre := fmt.Sprintf("%c%04d", 'B'+ni, i)
											stored := parentSep
											if i > 0 {
												stored = lens[i-1] - childHdr
											}
											mid := (len(lens) + 1) / 2
											if i >= mid-1 && i <= mid+1 {
												g.Leafs = append(g.Leafs, tightLeaf(pre, stored))
											} else {
												g.Leafs = append(g.Leafs, fillerLeaf(pre, sepKey(pre+"000", stored), 3300, false))
											}
										}
										counts = append(counts, len(lens)+1)
									}
									if g == nil {
										continue
									}
									g.Levels = [][]int{counts, {2}}
									mid := func(x int) []Rec { return g.Leafs[first[x]+counts[x]/2] }
									if !do(g, []Op{tightIn(mid(ti), 'x'), tightIn(mid(si), 'y'), tightIn(mid(ti), 'z')}) {
										return
									}
								}
							}
						}
					}
				}
			}
			t.sample("a page handing over to a sibling which becomes full to the byte")
		}}
}
