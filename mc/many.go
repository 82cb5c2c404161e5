package main

import (
	"fmt"

	"github.com/roy2220/plainkv"
)

// Great numbers: of operations in one session, of iterators, cursors and
// results alive at the same time, of sessions on one file, of dictionaries
// open at the same time.

// endlessX is one session of very many operations on a few keys.
func endlessX(tier string, ord bool, n int) xp {
	if tier == "thorough" {
		n *= 5
	}
	return xp{name: "endless", ord: ord, bound: fmt.Sprintf("one session of %d operations on a few keys, most of them small", n),
		run: func(t *T, m *Mon) {
			var ops []Op
			key := func(i int) []byte {
				if i%8 == 5 {
					return pad(fmt.Sprintf("k%02d", i), 258+i%3)
				}
				return []byte(fmt.Sprintf("k%02d", i))
			}
			for i := 0; i < 90; i++ {
				ops = append(ops, Op{Kind: opSetNX, K: key(i * 37 % 90), V: fillBytes(byte(i), 100)})
			}
			for i := 0; len(ops) < n; i++ {
				k := key(i * 53 % 90)
				if i/7%3 == 0 {
					k = key(44)
				}
				switch i % 7 {
				case 0:
					ops = append(ops, Op{Kind: opSet, K: k, V: fillBytes(byte(i), i%140), Want: true})
				case 1:
					ops = append(ops, Op{Kind: opTest, K: k, Want: true})
				case 2:
					ops = append(ops, Op{Kind: opSetX, K: k, V: fillBytes(byte(i), 130+i%9)})
				case 3:
					ops = append(ops, Op{Kind: opClear, K: k, Want: i%2 == 0})
				case 4:
					ops = append(ops, Op{Kind: opTest, K: k, Want: true})
				case 5:
					ops = append(ops, Op{Kind: opSetNX, K: k, V: fillBytes(byte(i), 120), Want: true})
				case 6:
					ops = append(ops, Op{Kind: opSetNX, K: k, V: fillBytes(byte(i), 120), Want: true})
				}
			}
			history(t, m, Path{Ord: ord, Env: envB, Ops: ops}, n/40, nil)
		}}
}

// manySubj is a dictionary of n records of mixed lengths.
func manySubj(ord bool, env EnvCfg, n int) (*Subj, string) {
	p := Path{Ord: ord, Env: env}
	s, bad := startPath(&p, nil, false)
	for i := 0; i < n && bad == ""; i++ {
		j := i * 263 % n
		k := []byte(fmt.Sprintf("%04d", j))
		switch j % 5 {
		case 2:
			k = pad(string(k), 250+j%20)
		case 4:
			k = pad(string(k), 20+j%9)
		}
		o := Op{Kind: opSetNX, K: k, V: fillBytes(byte('a'+j%26), j*7%150)}
		out := s.do(&o)
		bad = out.Panic + out.Bad
	}
	return s, bad
}

// manyRun makes a task of a function on such a dictionary.
func manyRun(name, bound string, real, ord bool, n int, f func(t *T, s *Subj) string) Task {
	env := envA
	if ord {
		env = envD
	}
	if real {
		name = "real/" + name
	}
	return Task{Name: name, Real: real, Bound: bound, Run: func(t *T) {
		tick()
		s, bad := manySubj(ord, env, n)
		defer s.end()
		if bad == "" {
			if p := guard(func() { bad = f(t, s) }); p != "" {
				bad = "panics: " + p
			}
		}
		if bad == "" {
			bad = contentsFinal(s, nil)
		}
		t.States++
		if real {
			t.Traces++
		}
		if bad != "" {
			t.fail(nil, "%s", bad)
		}
	}}
}

func many(tier string, q int) int {
	if tier == "thorough" {
		return q * 8
	}
	return q
}

// manyIterators has very many iterators open at once.
func manyIterators(tier string) (ts []Task) {
	n := many(tier, 1100)
	for _, real := range []bool{false, true} {
		ts = append(ts, manyRun("many/iterators", fmt.Sprintf("%d iterators open at the same time, taken on in turn", n), real, true, 400, func(t *T, s *Subj) string {
			ks := append([]string(nil), s.sorted...)
			type open struct {
				it       plainkv.OrderedDictIterator
				at, step int
				left     int
			}
			var os []*open
			for i := 0; i < n; i++ {
				lo, hi := i*7%len(ks), i*7%len(ks)+1+i%37
				if hi > len(ks) {
					hi = len(ks)
				}
				o := &open{at: lo, step: 1, left: hi - lo}
				if i%2 == 1 {
					o.at, o.step = hi-1, -1
					o.it = s.od.RangeDesc([]byte(ks[lo]), []byte(ks[hi-1]))
				} else {
					o.it = s.od.RangeAsc([]byte(ks[lo]), []byte(ks[hi-1]))
				}
				os = append(os, o)
			}
			for round := 0; len(os) > 0; round++ {
				tick()
				var rest []*open
				for i, o := range os {
					if o.it.IsAtEnd() != (o.left == 0) {
						return fmt.Sprintf("with %d iterators open, the end of number %d is reported wrongly (%d records left)", len(os), i, o.left)
					}
					if o.left == 0 {
						continue
					}
					k, v, err := o.it.ReadRecordAll()
					if err != nil || string(k) != ks[o.at] || string(v) != s.vals[ks[o.at]] {
						return fmt.Sprintf("with %d iterators open, number %d is at %s, %s (%v), not at %s", len(os), i, short(k), short(v), err, short([]byte(ks[o.at])))
					}
					o.it.Advance()
					o.at += o.step
					o.left--
					t.Transitions++
					rest = append(rest, o)
				}
				os = rest
			}
			return ""
		}))
	}
	return
}

// manyCursors has very many scans under way at once.
func manyCursors(tier string) (ts []Task) {
	n := many(tier, 1100)
	for _, real := range []bool{false, true} {
		ts = append(ts, manyRun("many/cursors", fmt.Sprintf("%d scans under way at the same time, taken on in turn", n), real, false, 150, func(t *T, s *Subj) string {
			type scan struct {
				c    plainkv.DictCursor
				seen map[string]bool
			}
			var cs []*scan
			for i := 0; i < n; i++ {
				cs = append(cs, &scan{seen: map[string]bool{}})
			}
			for round := 0; len(cs) > 0; round++ {
				tick()
				var rest []*scan
				for i, c := range cs {
					if i%7 > round { // not all at the same place
						rest = append(rest, c)
						continue
					}
					k, v, ok := s.dd.Scan(&c.c)
					if !ok {
						if len(c.seen) != len(s.vals) {
							return fmt.Sprintf("with %d scans under way, number %d ends after %d of %d items", len(cs), i, len(c.seen), len(s.vals))
						}
						continue
					}
					if w, has := s.vals[string(k)]; !has || w != string(v) || c.seen[string(k)] {
						return fmt.Sprintf("with %d scans under way, number %d delivers %s, %s (before: %v)", len(cs), i, short(k), short(v), c.seen[string(k)])
					}
					c.seen[string(k)] = true
					t.Transitions++
					rest = append(rest, c)
				}
				cs = rest
			}
			return ""
		}))
	}
	return
}

// manyResults keeps very many results.
func manyResults(tier string) (ts []Task) {
	n := many(tier, 70000)
	for _, real := range []bool{false, true} {
		for _, ord := range []bool{true, false} {
			ord := ord
			name := "many/results"
			if !ord {
				name += " (hash)"
			}
			ts = append(ts, manyRun(name, fmt.Sprintf("%d results kept, half of them overwritten, while others are obtained and values change", n), real, ord, 300, func(t *T, s *Subj) string {
				ks := append([]string(nil), s.keys()...)
				var c plainkv.DictCursor
				var it plainkv.OrderedDictIterator
				if ord {
					it = s.od.RangeAsc(plainkv.MinKey, plainkv.MaxKey)
				}
				for i := 0; len(s.handed) < n; i++ {
					if i%2000 == 0 {
						tick()
						if m := s.checkHanded(); m != "" {
							return m
						}
						if ord {
							it = s.od.RangeAsc(plainkv.MinKey, plainkv.MaxKey) // changed meanwhile
						}
					}
					o := Op{Kind: opTest, K: []byte(ks[i*17%len(ks)]), Want: true}
					if i%2000 == 1999 {
						o = Op{Kind: opSet, K: o.K, V: fillBytes(byte(i), 1+i%140), Want: true}
					}
					out := s.do(&o)
					if out.Panic+out.Bad != "" {
						return out.Panic + out.Bad
					}
					s.hand(out.Val, fmt.Sprintf("result %d of %s", i, &o))
					var k, v []byte
					if ord {
						if it.IsAtEnd() {
							it = s.od.RangeDesc(plainkv.MinKey, plainkv.MaxKey)
						}
						k, v, _ = it.ReadRecordAll()
						it.Advance()
						s.hand(k, "a key read")
						s.hand(v, "a value read")
					} else if k, v, ok := s.dd.Scan(&c); ok {
						s.hand(k, "a key read")
						s.hand(v, "a value read")
					} else {
						c = plainkv.DictCursor{}
					}
					t.Transitions++
				}
				return s.checkHanded()
			}))
		}
	}
	return
}

// manyReads reads very often.
func manyReads(tier string) (ts []Task) {
	n := many(tier, 70000)
	for _, real := range []bool{false, true} {
		for _, ord := range []bool{true, false} {
			ord := ord
			name := "many/reads"
			if !ord {
				name += " (hash)"
			}
			ts = append(ts, manyRun(name, fmt.Sprintf("%d lookups, changes without effect, iterations and scans in one session", n), real, ord, 300, func(t *T, s *Subj) string {
				ks := append([]string(nil), s.keys()...)
				before := s.snapshot()
				var c plainkv.DictCursor
				for i := 0; i < n; i++ {
					if i%5000 == 4999 {
						tick()
						if m := before.diff(s.snapshot()); m != "" {
							return fmt.Sprintf("reading %d times %s", i+1, m)
						}
					}
					k := []byte(ks[i*17%len(ks)])
					o := Op{Kind: opTest, K: k, Want: i%3 == 0}
					switch i % 8 {
					case 3:
						o = Op{Kind: opSetNX, K: k, V: fillBytes('q', 100), Want: i%3 == 0}
					case 5:
						o = Op{Kind: opSetX, K: append(k, '!'), V: fillBytes('q', 100), Want: true}
					case 6:
						o = Op{Kind: opClear, K: append(k, '!'), Want: true}
					case 7:
						if ord {
							for it := s.od.RangeAsc(k, append(k, '!')); !it.IsAtEnd(); it.Advance() {
								it.ReadRecordAll()
							}
						} else if _, _, ok := s.dd.Scan(&c); !ok {
							c = plainkv.DictCursor{}
						}
						continue
					}
					out := s.do(&o)
					if out.Panic+out.Bad != "" {
						return out.Panic + out.Bad
					}
					t.Transitions++
				}
				if m := before.diff(s.snapshot()); m != "" {
					return fmt.Sprintf("reading %d times %s", n, m)
				}
				return ""
			}))
		}
	}
	return
}

// manySessions opens and closes the same file very often.
func manySessions(tier string, ord bool) (ts []Task) {
	for _, real := range []bool{false, true} {
		real := real
		n := many(tier, 2000)
		if real {
			n = many(tier, 300)
		}
		ts = append(ts, manyRun("many/sessions", fmt.Sprintf("%d sessions on one file, some of them with a change", n), real, ord, 120, func(t *T, s *Subj) string {
			ks := append([]string(nil), s.keys()...)
			spaces, size := -1, -1
			for i := 0; i < n; i++ {
				tick()
				ro := Op{Kind: opReopen}
				if out := s.do(&ro); out.Panic != "" {
					return fmt.Sprintf("session %d: %s", i+2, out.Panic)
				}
				t.Transitions++
				nums, bad := s.nums()
				if bad != "" {
					return bad
				}
				if nums.Records != len(s.vals) || nums.Payload != s.payload() {
					return fmt.Sprintf("session %d: %d records of %d bytes reported, not %d of %d", i+2, nums.Records, nums.Payload, len(s.vals), s.payload())
				}
				if a, b := s.env.live(); i%5 != 0 {
					if spaces >= 0 && (a != spaces || b != size) {
						return fmt.Sprintf("session %d, after one without a change, has %d spaces of %d bytes, not %d of %d", i+2, a, b, spaces, size)
					}
					spaces, size = a, b
				} else {
					spaces = -1
				}
				if i%5 == 4 {
					o := Op{Kind: []int{opSet, opClear, opSetNX}[i/5%3], K: []byte(ks[i/5*7%len(ks)]), V: fillBytes(byte(i), i%140), Want: true}
					out := s.do(&o)
					if out.Panic+out.Bad != "" {
						return fmt.Sprintf("session %d: %s%s", i+2, out.Panic, out.Bad)
					}
				}
				if i%50 == 3 {
					if bad := contentsFinal(s, nil); bad != "" {
						return fmt.Sprintf("session %d: %s", i+2, bad)
					}
				}
			}
			return ""
		}))
	}
	return
}

// crowdTasks has very many dictionaries open at the same time.
func crowdTasks(tier string) (ts []Task) {
	for _, real := range []bool{false, true} {
		real := real
		name, n := "crowd", many(tier, 300)
		if real {
			name, n = "real/crowd", 280
		}
		ts = append(ts, Task{Name: name, Real: real, Bound: fmt.Sprintf("%d dictionaries open at the same time, used in turn", n), Run: func(t *T) {
			var ss []*Subj
			defer func() {
				for _, s := range ss {
					s.end()
				}
			}()
			bad := ""
			for i := 0; i < n && bad == ""; i++ {
				p := Path{Ord: i%2 == 0, Env: envs[i/2%4]}
				var s *Subj
				s, bad = startPath(&p, nil, false)
				ss = append(ss, s)
			}
			rounds := 60
			for r := 0; r < rounds && bad == ""; r++ {
				for i := range ss {
					if bad != "" {
						break
					}
					tick()
					s := ss[(i*7+r)%n] // n is not a multiple of 7
					if n%7 == 0 {
						s = ss[i]
					}
					j := (r*(i%3+1) + i) % 40
					o := Op{Kind: opSet, K: []byte(fmt.Sprintf("key %d", j)), V: fillBytes(byte(i+r), (i*13+r*7)%170), Want: true}
					if j%4 == 1 {
						o.K = pad(string(o.K), 262)
					}
					switch (r + i) % 9 {
					case 5:
						o.Kind = opClear
					case 7:
						o.Kind = opSetX
					case 8:
						o.Kind = opTest
					}
					out := s.do(&o)
					bad = out.Panic + out.Bad
					t.Transitions++
				}
				if r%20 == 19 {
					for i, s := range ss {
						if bad == "" {
							bad = contentsFinal(s, nil)
						}
						if bad == "" && s.ord {
							bad = s.checkRangeShort(true)
						}
						if i == 0 && bad == "" {
							bad = lockstep(ss)
						}
						if ro := (Op{Kind: opReopen}); bad == "" && i%5 == r/20 {
							out := s.do(&ro)
							bad = out.Panic
						}
					}
				}
			}
			t.States++
			if real {
				t.Traces++
			}
			if bad != "" {
				t.fail(nil, "%s (%d dictionaries open)", bad, n)
			}
		}})
	}
	return
}

// lockstep reads all records of several dictionaries, one of each in turn.
func lockstep(ss []*Subj) (bad string) {
	its := make([]plainkv.OrderedDictIterator, len(ss))
	cs := make([]plainkv.DictCursor, len(ss))
	at := make([]int, len(ss))
	seen := make([]map[string]bool, len(ss))
	for i, s := range ss {
		if seen[i] = map[string]bool{}; !s.ord {
			continue
		}
		if its[i] = s.od.RangeAsc(plainkv.MinKey, plainkv.MaxKey); i%4 == 2 {
			its[i] = s.od.RangeDesc(plainkv.MinKey, plainkv.MaxKey)
		}
	}
	for open := len(ss); open > 0; {
		for i, s := range ss {
			if at[i] < 0 {
				continue
			}
			var k, v []byte
			more := true
			if s.ord {
				if more = !its[i].IsAtEnd(); more {
					var err error
					if k, v, err = its[i].ReadRecordAll(); err != nil {
						return "reading fails: " + err.Error()
					}
					want := at[i]
					if i%4 == 2 {
						want = len(s.sorted) - 1 - at[i]
					}
					if want < 0 || want >= len(s.sorted) || string(k) != s.sorted[want] {
						return fmt.Sprintf("record %d of dictionary %d is %s", at[i], i, short(k))
					}
					its[i].Advance()
				}
			} else {
				k, v, more = s.dd.Scan(&cs[i])
			}
			if !more {
				if at[i] != len(s.vals) {
					return fmt.Sprintf("%d of %d records of dictionary %d are delivered", at[i], len(s.vals), i)
				}
				at[i] = -1
				open--
				continue
			}
			if w, has := s.vals[string(k)]; !has || w != string(v) || seen[i][string(k)] {
				return fmt.Sprintf("dictionary %d delivers %s, %s", i, short(k), short(v))
			}
			seen[i][string(k)] = true
			at[i]++
		}
	}
	return
}
