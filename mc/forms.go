package main

import "fmt"

// Keys which look like what is stored: the stored form of a key too long for
// its page is a prefix followed by the address of the rest, and it is a
// legal key itself. So are headers and contents of the space with the rest,
// and whole slots of a table.

// storedForms collects, in the closed file, byte strings which are stored.
func storedForms(e *Env, ord bool) (fs [][]byte) {
	e.image(func(img Image, primary int64) {
		b := img.Space(primary)
		if b == nil {
			return
		}
		seen := map[string]bool{}
		add := func(b []byte) {
			if !seen[string(b)] {
				seen[string(b)] = true
				fs = append(fs, append([]byte(nil), b...))
			}
		}
		if !ord {
			hi, err := parseHashInfo(b)
			if err != nil {
				return
			}
			t := decodeTable(img, hi.Dirs, int(hi.DirCount), int(hi.Slots))
			for _, slot := range t.Slots {
				var bin []byte
				for _, it := range slot {
					add(append(append([]byte(nil), it.Key...), it.Val...))
					if len(it.Val) > 1 {
						add(append(append([]byte(nil), it.Key...), it.Val[0]))
					}
					bin = append(append(bin, it.Key...), it.Val...)
				}
				if len(slot) > 0 {
					add(bin)
				}
			}
			return
		}
		ti, err := parseTreeInfo(b)
		if err != nil {
			return
		}
		for _, f := range decodeTree(img, ti.Root, ti.Height).Forms {
			add(f)
		}
	})
	return
}

func formsX(tier string, ord bool, cost int) xp {
	th := tier == "thorough"
	name := "forms/items"
	if ord {
		name = "forms/keys"
	}
	return xp{name: name, ord: ord, bound: "all sequences of 2 (thorough: 3) operations on a present key and on a key equal to its stored form",
		run: func(t *T, m *Mon) {
			var starts []Path
			long := func(i, n int) []byte { return pad(fmt.Sprintf("long%d", i), n) }
			for e := 0; e < 2; e++ {
				env := envs[(e+1)%len(envs)]
				if ord {
					starts = append(starts, Path{Ord: true, Env: env, Ops: []Op{
						{Kind: opSet, K: long(1, 257), V: []byte("1")}, {Kind: opSet, K: long(2, 300), V: mixBytes(1, 129)}, {Kind: opSet, K: []byte("a"), V: mixBytes(2, 200)}}})
					g := &Geom{Levels: [][]int{{3}}}
					for i := 0; i < 3; i++ {
						pre := fmt.Sprintf("%05d", i)
						g.Leafs = append(g.Leafs, fillerLeaf(pre, sepKey(pre+"000", 257), 4000, true))
					}
					starts = append(starts, Path{Ord: true, Env: env, Geom: g})
					if e == 0 && cost == 1 {
						g, _ := deepGeom(nlU, nlU, 4200, []int{maxSep}, 1, 2)
						starts = append(starts, Path{Ord: true, Env: env, Geom: g})
					}
				} else {
					ks := chainKeys(3, 6, 5, true)
					starts = append(starts, Path{Env: env, Ops: []Op{{Kind: opSet, K: []byte("a"), V: []byte("xyz")}}},
						Path{Env: env, Ops: []Op{{Kind: opSet, K: []byte(ks[0]), V: []byte("xyz")}, {Kind: opSet, K: []byte(ks[1]), V: nil}, {Kind: opSet, K: []byte(ks[2]), V: mixBytes(5, 30)}}})
				}
			}
			for si, p := range starts {
				tmpl := template(&p)
				s, bad := runPath(&p, tmpl, &Mon{after: badResult}, 0)
				if bad == "" {
					bad = s.close()
				}
				var fs [][]byte
				if bad == "" {
					fs = storedForms(s.env, ord)
				}
				keys := s.keys()
				s.end()
				if bad != "" {
					t.fail(p, "%s", bad)
					return
				}
				if n := len(fs); n > 5 && !th {
					fs = [][]byte{fs[0], fs[1], fs[n/2], fs[n-2], fs[n-1]}
				}
				for _, f := range fs {
					// the present key most alike
					best, at := -1, ""
					for _, k := range keys {
						c := 0
						for c < len(k) && c < len(f) && k[c] == f[c] {
							c++
						}
						if c > best {
							best, at = c, k
						}
					}
					var alpha []Op
					for _, k := range [][]byte{f, []byte(at)} {
						alpha = append(alpha, Op{Kind: opTest, K: k, Want: true}, Op{Kind: opSetNX, K: k, V: []byte("nx"), Want: true},
							Op{Kind: opSetX, K: k, V: []byte("x"), Want: true}, Op{Kind: opClear, K: k, Want: true})
					}
					depth := 2
					if th && len(fs) < 8 {
						depth = 3
					}
					n := len(alpha)
					total := n
					for d := 1; d < depth; d++ {
						total *= n
					}
					t.States++
					for x := 0; x < total; x++ {
						if t.expired() || t.failed() {
							return
						}
						q := p
						q.Ops = append([]Op(nil), p.Ops...)
						for d, y := 0, x; d < depth; d, y = d+1, y/n {
							q.Ops = append(q.Ops, alpha[y%n])
						}
						q.Ops = append(q.Ops, alpha[0], alpha[n/2])
						if !th && cost > 1 && x%3 != si%3 {
							continue
						}
						s, bad := runPath(&q, tmpl, m, len(p.Ops))
						if bad == "" {
							bad = finish(s, &q, m)
						}
						s.end()
						t.Transitions += int64(depth)
						if bad != "" {
							t.fail(q, "%s (a key with the bytes stored for another)", bad)
							return
						}
					}
				}
				if tmpl != nil {
					tmpl.drop()
				}
			}
		}}
}
