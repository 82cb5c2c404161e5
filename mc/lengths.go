package main

import (
	"fmt"
	"sort"

	"github.com/roy2220/plainkv"
)

// ---- C10: lengths, bytes and order of keys and values

// mixBytes makes n bytes of all values which depend on position, length and seed.
func mixBytes(seed, n int) []byte {
	b := make([]byte, n)
	x := uint32(seed*2654435761 + n*40503 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// pathTask runs all paths generated; gen stops if yield returns false.
func pathTask(name, bound string, real bool, mk func() *Mon, gen func(t *T, yield func(Path) bool)) Task {
	return Task{Name: name, Bound: bound, Real: real,
		Run: func(t *T) {
			m := mk()
			n := 0
			gen(t, func(p Path) bool {
				if n++; n%16 == 0 && t.expired() {
					return false
				}
				t.States++
				t.Transitions += int64(len(p.Ops))
				if !isSim {
					t.Traces++
				}
				if n == 3 {
					t.sample("%v", p.Ops)
				}
				if bad := checkPath(&p, m); bad != "" {
					t.fail(p, "%s", bad)
					return false
				}
				return true
			})
		},
		Replay: pathReplay(mk()),
	}
}

func uniq(xs []int) []int {
	seen := map[int]bool{}
	var r []int
	for _, x := range xs {
		if x >= 0 && !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

func span(a, b int) []int {
	var r []int
	for i := a; i <= b; i++ {
		r = append(r, i)
	}
	return r
}

// lengthsOfInterest lists lengths around everything at which the layout changes.
func lengthsOfInterest(th bool) []int {
	l := []int{0, 1, 2, 3, 7, 8, 9}
	l = append(l, span(22, 27)...)
	l = append(l, span(119, 131)...)
	l = append(l, span(247, 259)...)
	l = append(l, 376, 377, 378, 379, 504, 505, 506, 1000, 4088, 8171, 8172, 8192, 8193, 16383, 16384, 16504, 16505, 16632, 16633, 16634, 65536)
	if th {
		l = append(l, span(0, 400)...)
		l = append(l, span(500, 512)...)
		l = append(l, span(4080, 4100)...)
		l = append(l, span(8160, 8200)...)
		l = append(l, span(16378, 16390)...)
		l = append(l, span(16500, 16510)...)
		l = append(l, span(16628, 16640)...)
		l = append(l, 131071, 1<<20, 1<<21+249)
	}
	return uniq(l)
}

func neighbours(ord bool) []Op {
	var ops []Op
	for i, n := range []int{0, 5, 130, 260} {
		k := append([]byte{byte(40 * i)}, mixBytes(900+i, n)...)
		ops = append(ops, Op{Kind: opSet, K: k, V: mixBytes(950+i, 200-n/2)})
	}
	return ops
}

func lengthTasks(tier string) []Task {
	th := tier == "thorough"
	var ts []Task
	mk := monMap
	L := lengthsOfInterest(th)
	small := []int{0, 1, 24, 25, 121, 122, 128, 129, 130, 249, 250, 256, 257, 258, 505, 8192, 16633}
	for _, ord := range []bool{true, false} {
		ord := ord
		kind := map[bool]string{true: "ordered", false: "hash"}[ord]
		shards := 4
		for sh := 0; sh < shards; sh++ {
			sh := sh
			ts = append(ts, pathTask(fmt.Sprintf("lengths/%s/%d", kind, sh),
				"all pairs of key and value lengths of interest: set, look up, replace, reopen, clear, among neighbours", false, mk,
				func(t *T, yield func(Path) bool) {
					n := 0
					for _, kl := range L {
						for _, vl := range L {
							if kl > 20000 && vl > 20000 {
								continue
							}
							if th && kl > 140 && vl > 140 && kl < 240 && vl < 240 {
								continue
							}
							n++
							if n%shards != sh {
								continue
							}
							k, v, w := mixBytes(1, kl), mixBytes(2, vl), mixBytes(3, vl)
							p := Path{Ord: ord, Env: envs[n/shards%4], Ops: append(neighbours(ord),
								Op{Kind: opSetNX, K: k, V: v, Want: true}, Op{Kind: opTest, K: k, Want: true},
								Op{Kind: opSet, K: k, V: w, Want: true}, Op{Kind: opReopen}, Op{Kind: opTest, K: k, Want: true})}
							if !yield(p) {
								return
							}
							p.Ops = append(p.Ops, Op{Kind: opClear, K: k, Want: true}, Op{Kind: opTest, K: k, Want: true})
							if n%3 == 0 && !yield(p) {
								return
							}
						}
					}
				}))
		}
		// sizes at which their own encoding gets longer, where parts of the
		// data are stored in place
		var huge []int
		for _, b := range []int{1 << 7, 1 << 14, 1 << 21} {
			for _, off := range []int{0, 16, 24, 121, 249} {
				for d := -2; d <= 1; d++ {
					if th || b < 1<<21 || off >= 121 || d == 0 {
						huge = append(huge, b+off+d)
					}
				}
			}
		}
		ts = append(ts, pathTask("huge/"+kind, "keys and values of lengths around 2^7, 2^14 and 2^21, plus what is stored in place of longer ones", false, mk,
			func(t *T, yield func(Path) bool) {
				for i, l := range huge {
					k, v := mixBytes(31, l), mixBytes(32, 30)
					for x := 0; x < 2; x++ {
						if x == 1 {
							k, v = mixBytes(33, 30), mixBytes(34, l)
						}
						p := Path{Ord: ord, Env: envs[(i+x)%4], Ops: append(neighbours(ord),
							Op{Kind: opSetNX, K: k, V: v}, Op{Kind: opSet, K: k[:29], V: v[:29]}, Op{Kind: opTest, K: k, Want: true},
							Op{Kind: opSetX, K: k, V: v[:len(v)-1], Want: true}, Op{Kind: opReopen}, Op{Kind: opClear, K: k, Want: true})}
						if i%2 == 0 {
							p.Ops = p.Ops[:len(p.Ops)-1]
						}
						if !yield(p) {
							return
						}
					}
				}
			}))
		ts = append(ts, pathTask("replace/"+kind, "all pairs of lengths of an old and a new value, for keys of three lengths, with neighbours in the same page and slot", false, mk,
			func(t *T, yield func(Path) bool) {
				n := 0
				for _, a := range L {
					for _, b := range L {
						if a > 20000 && b > 20000 || !th && a > 260 && b > 260 {
							continue
						}
						n++
						for ki, kl := range []int{3, 25, 257} {
							if !th && (n+ki)%3 == 2 {
								continue
							}
							k := mixBytes(7, kl)
							ops := neighbours(ord)
							ops = append(ops, Op{Kind: opSet, K: k, V: mixBytes(8, a)})
							for i := 0; i < 4; i++ { // more in the same slot
								ops = append(ops, Op{Kind: opSet, K: append(append([]byte(nil), k...), byte(i)), V: mixBytes(i, 20*i)})
							}
							ops = append(ops, Op{Kind: []int{opSet, opSetX}[n%2], K: k, V: mixBytes(9, b), Want: true},
								Op{Kind: opTest, K: k, Want: true}, Op{Kind: opClear, K: append(append([]byte(nil), k...), 1), Want: true},
								Op{Kind: opSetX, K: k, V: mixBytes(10, a), Want: true}, Op{Kind: opReopen}, Op{Kind: opClear, K: k, Want: n%2 == 0})
							if !yield(Path{Ord: ord, Env: envs[n%4], Ops: ops}) {
								return
							}
						}
					}
				}
			}))
		ts = append(ts, pathTask("late/"+kind, "values of all lengths of interest replaced by ones of the same length which differ in one byte, at the ends and around what is stored in place", false, mk,
			func(t *T, yield func(Path) bool) {
				n := 0
				for _, l := range L {
					if l > 70000 {
						continue
					}
					for _, at := range uniq([]int{0, 1, 24, 119, 120, 121, 122, 127, 128, 129, 130, l / 2, l - 9, l - 8, l - 2, l - 1}) {
						if at >= l {
							continue
						}
						for ki, kl := range []int{2, 25, 258} {
							n++
							if !th && l > 400 && ki != n%3 {
								continue
							}
							k, v := mixBytes(7, kl), mixBytes(8, l)
							w := append([]byte(nil), v...)
							w[at] ^= []byte{1, 0x80, 0xff}[n%3]
							if !yield(Path{Ord: ord, Env: envs[n%4], Ops: append(neighbours(ord), Op{Kind: opSet, K: k, V: v},
								Op{Kind: []int{opSet, opSetX}[n/2%2], K: k, V: w, Want: n%2 == 0}, Op{Kind: opTest, K: k, Want: true})}) {
								return
							}
						}
					}
				}
			}))
		ts = append(ts, pathTask("chain/"+kind, "all triples of key lengths in one slot or page, one cleared", false, mk,
			func(t *T, yield func(Path) bool) {
				n := 0
				for _, a := range small {
					for _, b := range small {
						for _, c := range small {
							n++
							ks := [][]byte{mixBytes(1, a), mixBytes(2, b), mixBytes(3, c)}
							var ops []Op
							for i, k := range ks {
								ops = append(ops, Op{Kind: opSet, K: k, V: mixBytes(20+i, small[(n+i*5)%len(small)]), Want: true})
							}
							ops = append(ops, Op{Kind: opClear, K: ks[n%3], Want: true})
							if n%4 == 0 {
								ops = append(ops, Op{Kind: opReopen})
							}
							if !yield(Path{Ord: ord, Env: envs[n%4], Ops: ops}) {
								return
							}
						}
					}
				}
			}))
		ts = append(ts, pathTask("real/"+kind, "all pairs of some key and value lengths, on the real storage", true, mk,
			func(t *T, yield func(Path) bool) {
				n := 0
				ls := small
				if th {
					ls = L
				}
				for _, kl := range ls {
					for _, vl := range ls {
						if kl > 20000 && vl > 20000 {
							continue
						}
						n++
						if th && n%3 != 0 {
							continue
						}
						k := mixBytes(1, kl)
						if !yield(Path{Ord: ord, Ops: append(neighbours(ord), Op{Kind: opSet, K: k, V: mixBytes(2, vl)}, Op{Kind: opReopen},
							Op{Kind: opSetX, K: k, V: mixBytes(3, ls[(n*7)%len(ls)]), Want: true}, Op{Kind: opTest, K: k, Want: true})}) {
							return
						}
					}
				}
			}))
		ts = append(ts, everyLength(tier, ord)...)
		ts = append(ts, everyKey(tier, ord)...)
		ts = append(ts, pathTask("bytes/"+kind, "all keys of up to one byte and all pairs of two-byte keys over {0,1,'a',0x7f,0x80,0xfe,0xff}, also behind a long common prefix", false, mk,
			func(t *T, yield func(Path) bool) {
				for _, pl := range []int{0, 1, 24, 248, 249, 256, 257, 300} {
					pre := mixBytes(5, pl)
					var ops []Op
					ops = append(ops, Op{Kind: opSet, K: pre, V: pre, Want: true})
					for i := 0; i < 256; i++ {
						b := byte(i * 167)
						ops = append(ops, Op{Kind: opSetNX, K: append(append([]byte(nil), pre...), b), V: []byte{b}, Want: true})
					}
					if !yield(Path{Ord: ord, Ops: ops}) {
						return
					}
					bs := []byte{0, 1, 'a', 0x7f, 0x80, 0xfe, 0xff}
					ops = nil
					for _, x := range bs {
						ops = append(ops, Op{Kind: opSetNX, K: append(append([]byte(nil), pre...), x), V: []byte{x}, Want: true})
						for _, y := range bs {
							ops = append(ops, Op{Kind: opSetNX, K: append(append([]byte(nil), pre...), x, y), V: []byte{x, y}, Want: true})
						}
					}
					ops = append(ops, Op{Kind: opReopen})
					if !yield(Path{Ord: ord, Ops: ops}) {
						return
					}
				}
			}))
		// keys which differ somewhere only
		ts = append(ts, pathTask("differ/"+kind, "pairs of equally long keys differing in a single byte, at every position; a key and its extension", false, mk,
			func(t *T, yield func(Path) bool) {
				n := 0
				for _, l := range []int{1, 2, 24, 25, 26, 121, 129, 248, 249, 250, 256, 257, 258, 300, 520} {
					for at := 0; at < l; at++ {
						for _, d := range []byte{1, 0x80, 0xff} {
							n++
							a := mixBytes(4, l)
							b := append([]byte(nil), a...)
							b[at] ^= d
							ops := []Op{{Kind: opSet, K: a, V: []byte("a")}, {Kind: opSet, K: append(append([]byte(nil), a...), 0), V: []byte("a0")},
								{Kind: opTest, K: b, Want: true}, {Kind: opClear, K: b, Want: true}, {Kind: opSetNX, K: b, V: []byte("b"), Want: true},
								{Kind: opSetX, K: a[:l-1], V: []byte("c"), Want: true}}
							if !yield(Path{Ord: ord, Env: envs[n%4], Ops: ops}) {
								return
							}
						}
					}
				}
			}))
	}
	// long keys which differ somewhere only
	for _, ord := range []bool{true, false} {
		ord := ord
		kind := map[bool]string{true: "ordered", false: "hash"}[ord]
		ts = append(ts, pathTask("differ late/"+kind, "pairs of equally long keys of 1000 to 70000 bytes differing in a single byte, at positions around multiples of 256 and powers of 2", false, mk,
			func(t *T, yield func(Path) bool) {
				n := 0
				for _, l := range []int{1000, 4096 + 249, 5000, 8193, 17000, 33000, 66000, 70000} {
					var at []int
					for p := 256; p < l; p += 256 {
						if n++; th || p&(p-1) == 0 || p%4096 == 0 || n%7 == 0 {
							at = append(at, p-1, p, p+1, p+24, p+248, p+249)
						}
					}
					at = append(at, l-2, l-1, l-9)
					for _, a := range uniq(at) {
						if a >= l {
							continue
						}
						n++
						k := mixBytes(4, l)
						b := append([]byte(nil), k...)
						b[a] ^= []byte{1, 0x80, 0xff}[n%3]
						ops := []Op{{Kind: opSet, K: k, V: []byte("a")}, {Kind: opTest, K: b, Want: true}, {Kind: opClear, K: b, Want: true},
							{Kind: opSetNX, K: b, V: []byte("b"), Want: true}, {Kind: opTest, K: k, Want: true}}
						if !yield(Path{Ord: ord, Env: envs[n%4], Ops: ops}) {
							return
						}
					}
				}
			}))
	}
	// order
	ts = append(ts, pathTask("order", "all pairs of tails behind common prefixes of all lengths of interest", false, func() *Mon {
		return &Mon{after: badResult, final: func(s *Subj, p *Path) string {
			if bad := contentsFinal(s, p); bad != "" {
				return bad
			}
			return monRange(24).final(s, p)
		}}
	}, func(t *T, yield func(Path) bool) {
		pres := []int{0, 1, 7, 8, 120, 241, 246, 247, 248, 249, 250, 255, 256, 257, 258, 300, 505, 1000}
		if th {
			pres = append(span(0, 300), 505, 506, 1000, 8192, 16633)
		}
		tails := [][]byte{{}, {0}, {0, 0}, {1}, {0x7f}, {0x80}, {0xff}, {0xff, 0xff}, []byte("m"), mixBytes(1, 8), mixBytes(2, 9), mixBytes(3, 300), append([]byte{0}, mixBytes(4, 400)...), append([]byte{0xff}, mixBytes(5, 260)...)}
		for _, pl := range pres {
			for i := range tails {
				for j := range tails {
					if i == j {
						continue
					}
					pre := mixBytes(6, pl)
					var ops []Op
					for _, x := range []int{i, j, (i + j) % len(tails)} {
						ops = append(ops, Op{Kind: opSet, K: append(append([]byte(nil), pre...), tails[x]...), V: []byte{byte(x)}})
					}
					if !yield(Path{Ord: true, Env: envs[(i+j)%4], Ops: ops}) {
						return
					}
				}
			}
		}
	}))
	// trees of long keys sharing long prefixes
	ts = append(ts, pathTask("order/trees", "trees of 60 records of keys sharing a long prefix, in several orders, then emptied", false, mk,
		func(t *T, yield func(Path) bool) {
			for _, pl := range []int{0, 200, 240, 249, 256, 257, 300, 2000} {
				for ord := 0; ord < 5; ord++ {
					for _, tl := range []int{2, 9, 60, 300} {
						pre := mixBytes(11, pl)
						var ops []Op
						key := func(i int) []byte {
							return append(append(append([]byte(nil), pre...), byte(i*3)), mixBytes(i, tl)...)
						}
						for _, i := range order(ord, 60) {
							ops = append(ops, Op{Kind: opSetNX, K: key(i), V: mixBytes(i, i%5*60)})
						}
						ops = append(ops, Op{Kind: opReopen})
						for _, i := range order((ord+1)%5, 60) {
							if i%7 != 0 {
								ops = append(ops, Op{Kind: opClear, K: key(i), Want: true})
							}
						}
						if !yield(Path{Ord: true, Env: envs[ord%4], Ops: ops}) {
							return
						}
					}
				}
			}
		}))
	return ts
}

// everyLength goes through all lengths up to a bound.
func everyLength(tier string, ord bool) (ts []Task) {
	kind := map[bool]string{true: "ordered", false: "hash"}[ord]
	shards := 2
	for sh := 0; sh < shards; sh++ {
		for _, ofKey := range []bool{true, false} {
			sh, ofKey := sh, ofKey
			what, max := "value", 80000
			if ofKey {
				what, max = "key", 40000
			}
			if tier == "thorough" {
				max = 200000
			}
			ts = append(ts, Task{Name: fmt.Sprintf("every %s/%s/%d", what, kind, sh), Bound: fmt.Sprintf("a %s of each length from 0 to %d: set, looked up, replaced or cleared, among others", what, max),
				Run: func(t *T) {
					p := Path{Ord: ord, Env: envs[sh*2]}
					if !ofKey {
						p.Env = envs[sh*2+1]
					}
					s, bad := startPath(&p, nil, false)
					defer s.end()
					var done []Op
					do := func(o Op) bool {
						out := s.do(&o)
						t.Transitions++
						bad = out.Panic + out.Bad
						return bad == ""
					}
					for i, o := range neighbours(ord) {
						if bad == "" {
							do(o)
							done = append(done, neighbours(ord)[i])
						}
					}
					all := mixBytes(17, max+1)
					for l := sh; l <= max && bad == ""; l += shards {
						if l%256 == sh {
							tick()
							if t.expired() {
								return
							}
						}
						t.States++
						k, v := []byte{byte(l % 11), byte(l % 7)}, all[max-l:max]
						if ofKey {
							k, v = all[max-l:max], k
						}
						if !do(Op{Kind: []int{opSet, opSetNX}[b2i(ofKey)], K: k, V: v, Want: true}) || !do(Op{Kind: opTest, K: k, Want: true}) {
							break
						}
						if ofKey {
							if l%3 != 0 && !do(Op{Kind: opSetX, K: k, V: []byte("other"), Want: true}) || !do(Op{Kind: opClear, K: k, Want: true}) {
								break
							}
						} else if l%5 == 0 && !do(Op{Kind: opClear, K: k, Want: true}) {
							break
						}
						if l%4000 == sh {
							bad = contentsFinal(s, nil)
						}
						if l%1000 == sh && bad == "" {
							do(Op{Kind: opReopen})
						}
					}
					if bad == "" {
						bad = contentsFinal(s, nil)
					}
					if bad != "" {
						t.fail(nil, "%s", bad)
					}
				}})
		}
	}
	return
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// everyKey holds all keys of up to two bytes at once.
func everyKey(tier string, ord bool) (ts []Task) {
	kind := map[bool]string{true: "ordered", false: "hash"}[ord]
	ts = append(ts, Task{Name: "every short key/" + kind, Bound: "all keys of up to two bytes at once, in one order, cleared in another one",
		Run: func(t *T) {
			p := Path{Ord: ord, Env: envB}
			s, bad := startPath(&p, nil, false)
			defer s.end()
			key := func(i int) []byte {
				switch {
				case i == 0:
					return nil
				case i <= 256:
					return []byte{byte(i - 1)}
				}
				return []byte{byte((i - 257) >> 8), byte(i - 257)}
			}
			n := 1 + 256 + 65536
			vals := map[string]string{}
			check := func() string {
				if s.ord {
					i := 0
					keys := make([]string, 0, len(vals))
					for k := range vals {
						keys = append(keys, k)
					}
					sort.Strings(keys)
					for it := s.od.RangeAsc(plainkv.MinKey, plainkv.MaxKey); !it.IsAtEnd(); it.Advance() {
						k, v, err := it.ReadRecordAll()
						if err != nil || i >= len(keys) || string(k) != keys[i] || string(v) != vals[keys[i]] {
							return fmt.Sprintf("record %d of %d is %s, %s (%v)", i, len(keys), short(k), short(v), err)
						}
						i++
					}
					if i != len(keys) {
						return fmt.Sprintf("%d of %d records are delivered", i, len(keys))
					}
					return ""
				}
				var c plainkv.DictCursor
				seen := 0
				for {
					k, v, ok := s.dd.Scan(&c)
					if !ok {
						break
					}
					seen++
					if w, has := vals[string(k)]; !has || w != string(v) {
						return fmt.Sprintf("item %s, %s is delivered", short(k), short(v))
					}
				}
				if seen != len(vals) {
					return fmt.Sprintf("%d of %d items are delivered", seen, len(vals))
				}
				return ""
			}
			do := func(o Op) {
				if bad != "" {
					return
				}
				// the model of Subj keeps its keys sorted, at a cost
				r := s.rawOp(&o, o.K, o.V)
				t.Transitions++
				old, has := vals[string(o.K)]
				want := has
				switch o.Kind {
				case opSetNX:
					want = !has
				case opReopen:
					bad = s.close()
					if bad == "" {
						bad = s.open(false)
					}
					return
				}
				if r.Panic != "" || r.Ok != want || o.Want && string(r.Val) != old {
					bad = fmt.Sprintf("%s gives %s, %v %s", o, short(r.Val), r.Ok, r.Panic)
				}
				if want {
					if o.Kind == opClear {
						delete(vals, string(o.K))
					} else if o.Kind != opTest {
						vals[string(o.K)] = string(o.V)
					}
				}
			}
			for i := 0; i < n && bad == ""; i++ {
				if i%256 == 0 {
					tick()
				}
				k := key(i * 40503 % n)
				do(Op{Kind: opSetNX, K: k, V: []byte(fmt.Sprint(i)), Want: true})
				if i%3 == 0 {
					do(Op{Kind: opTest, K: key(i * 977 % n), Want: true})
				}
				t.States++
			}
			for round := 0; round < 3 && bad == ""; round++ {
				if bad = check(); bad != "" {
					break
				}
				do(Op{Kind: opReopen})
				for i := 0; i < n && bad == ""; i++ {
					if i%256 == 0 {
						tick()
					}
					k := key(i * 15013 % n)
					switch {
					case round == 0 && i%2 == 0:
						do(Op{Kind: opSetX, K: k, V: []byte(fmt.Sprint(-i)), Want: true})
					case round == 0 && i%7 == 3:
						do(Op{Kind: opSetNX, K: k, V: k, Want: true})
					case round == 1 && i%9 != 4 || round == 2:
						do(Op{Kind: opClear, K: k, Want: true})
					}
				}
			}
			if bad == "" {
				bad = check()
			}
			if bad != "" {
				t.fail(nil, "%s", bad)
			}
		}})
	return
}

// longLayout stores and reads long keys and values through the independent
// reader and writer of the layout.
func longLayout(tier string, ord bool) (ts []Task) {
	th := tier == "thorough"
	kind := map[bool]string{true: "ordered", false: "hash"}[ord]
	top := uint(22)
	if th {
		top = 26
	}
	for sh := 0; sh < 2; sh++ {
		sh := sh
		ts = append(ts, pathTask(fmt.Sprintf("long/%s/%d", kind, sh),
			fmt.Sprintf("a key or a value of a length around each power of two up to 2^%d: written by the code and by the independent writer, then read, replaced by a shorter and a longer one, cleared", top), false, monLayout,
			func(t *T, yield func(Path) bool) {
				n := 0
				for b := uint(7); b <= top; b++ {
					for _, off := range []int{-1, 0, 1, 121, 122, 249, 250, 1 << (b - 1)} {
						if b > 16 && !th && off != 0 && off != 250 && off != 1<<(b-1) {
							continue
						}
						if n++; n%2 != sh {
							continue
						}
						l := 1<<b + off
						for x := 0; x < 4; x++ {
							k, v := mixBytes(n, l), mixBytes(n+1, 40)
							if x%2 == 1 {
								k, v = mixBytes(n, 40), mixBytes(n+1, l)
							}
							p := Path{Ord: ord, Env: envs[(n+x)%4]}
							if x < 2 {
								p.Ops = append(p.Ops, Op{Kind: opSet, K: []byte("a"), V: []byte("1")}, Op{Kind: opSet, K: k, V: v})
							} else {
								rs := []Rec{{[]byte{0}, []byte("1")}, {k, v}}
								if ord {
									if len(k) > 0 && k[0] == 0 {
										rs[0].Key = nil
									}
									p.Geom = &Geom{Leafs: [][]Rec{rs}}
								} else {
									p.Table = &TableGeom{Items: rs, Slots: 2}
								}
								p.Ops = append(p.Ops, Op{Kind: opTest, K: k, Want: true})
							}
							if !yield(p) {
								return
							}
							p.Ops = append(p.Ops, Op{Kind: opSet, K: k, V: v[:len(v)/2+1], Want: true}, Op{Kind: opSetX, K: k, V: append(v[:len(v):len(v)], 'x'), Want: true})
							if !yield(p) {
								return
							}
							p.Ops = append(p.Ops, Op{Kind: opReopen}, Op{Kind: opClear, K: k, Want: true})
							if !yield(p) {
								return
							}
						}
					}
				}
			}))
	}
	return
}
