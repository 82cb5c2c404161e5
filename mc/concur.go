package main

import (
	"encoding/json"
	"fmt"
	"sync"
)

// ---- C17: separate dictionaries; C14: concurrent lookups

// job is what a thread does with a dictionary; it returns what went wrong.
type job struct {
	name string
	path Path // start
	run  func(s *Subj) string
	ops  []Op
	// the thread is not preempted
	whole bool
}

// sharedArgs holds arguments which threads pass to operations without
// copying them: the same slice to all.
func sharedArgs(ks ...[]byte) map[string][]byte {
	m := map[string][]byte{}
	for _, k := range ks {
		m[string(k)] = argCopy(k)
	}
	return m
}

// argsChanged tells whether shared arguments are not what they were.
func argsChanged(m map[string][]byte) string {
	for k, b := range m {
		if bad := argCheck(b, []byte(k)); bad != "" {
			return "an operation " + bad
		}
	}
	return ""
}

func opsJob(name string, p Path, ops ...Op) job {
	return job{name: name, path: p, ops: ops, run: func(s *Subj) string {
		for i := range ops {
			out := s.do(&ops[i])
			if out.Panic != "" {
				return fmt.Sprintf("%s panics: %s", &ops[i], out.Panic)
			}
			if out.Bad != "" {
				return out.Bad
			}
		}
		return ""
	}}
}

func guarded(f func() string) (bad string) {
	if m := guard(func() { bad = f() }); m != "" {
		bad = "panics: " + m
	}
	return
}

// separateJobs: everything an operation may do, for both kinds.
func separateJobs() []job {
	long, long2 := mixBytes(1, 300), mixBytes(2, 280)
	few := []Op{{Kind: opSet, K: []byte("b"), V: []byte("1")}, {Kind: opSet, K: long, V: mixBytes(3, 300)}, {Kind: opSet, K: []byte("q"), V: mixBytes(4, 128)}}
	var js []job
	for _, ord := range []bool{true, false} {
		p := Path{Ord: ord, Env: envB, Ops: few}
		k := map[bool]string{true: "ordered", false: "hash"}[ord]
		js = append(js,
			opsJob(k+" set", p, Op{Kind: opSet, K: long2, V: mixBytes(5, 200), Want: true}, Op{Kind: opTest, K: long2, Want: true}),
			opsJob(k+" replace", p, Op{Kind: opSet, K: long, V: mixBytes(6, 129), Want: true}, Op{Kind: opSetX, K: []byte("b"), V: mixBytes(7, 60), Want: true}),
			opsJob(k+" clear", p, Op{Kind: opClear, K: long, Want: true}, Op{Kind: opSetNX, K: []byte("c"), V: []byte("2"), Want: true}),
			opsJob(k+" reopen", p, Op{Kind: opReopen}, Op{Kind: opTest, K: long, Want: true}),
			job{name: k + " dump", path: p, run: func(s *Subj) string {
				rs, bad := s.dump()
				if bad == "" {
					bad = s.same(rs)
				}
				return bad
			}},
			job{name: k + " stats", path: p, run: statsOnly})
	}
	g := &Geom{Leafs: [][]Rec{leafRecs("B", leafO, []int{maxRec}, true)}}
	js = append(js, opsJob("ordered split", Path{Ord: true, Env: envB, Geom: g}, leafOps(g, 0, "B", true)[2]))
	g2 := &Geom{Leafs: [][]Rec{leafRecs("B", leafU, []int{maxRec}, true), leafRecs("C", leafU, []int{maxRec}, true)}, Levels: [][]int{{2}}}
	js = append(js, opsJob("ordered merge", Path{Ord: true, Env: envB, Geom: g2}, leafOps(g2, 0, "B", false)[0]))
	tg := &TableGeom{Slots: 4, Items: tableItems(maxItems(4))}
	js = append(js, opsJob("hash grow", Path{Env: envB, Table: tg}, Op{Kind: opSet, K: long, V: long2, Want: true}))
	tg2 := &TableGeom{Slots: 4, Items: tableItems(minItems(4))}
	js = append(js, opsJob("hash shrink", Path{Env: envB, Table: tg2}, Op{Kind: opClear, K: tg2.Items[0].Key, Want: true}))
	return js
}

func statsOnly(s *Subj) string {
	n, bad := s.nums()
	if bad != "" {
		return bad
	}
	if n.Records != len(s.vals) || n.Payload != s.payload() {
		return fmt.Sprintf("%+v reported, %d records of %d bytes present", n, len(s.vals), s.payload())
	}
	return ""
}

func startJob(j *job) (*Subj, string) {
	tmpl := template(&j.path)
	s, bad := startPath(&j.path, tmpl, false)
	if tmpl != nil {
		tmpl.drop()
	}
	for i := range j.path.Ops {
		if bad == "" {
			out := s.do(&j.path.Ops[i])
			bad = out.Panic + out.Bad
		}
	}
	return s, bad
}

// repeated does a job many times over; it is not preempted meanwhile.
func repeated(j job, n int) job {
	return job{name: fmt.Sprintf("%d times %s", n, j.name), path: j.path, ops: j.ops, whole: true, run: func(s *Subj) string {
		for i := 0; i < n; i++ {
			if bad := j.run(s); bad != "" {
				return fmt.Sprintf("round %d: %s", i, bad)
			}
		}
		return ""
	}}
}

// rounds is how often a job is repeated while another one waits.
const rounds = 1000

// separate runs jobs in threads, each with a dictionary of its own.
func separate(js ...job) scenario {
	name := ""
	for i := range js {
		if i > 0 {
			name += " / "
		}
		name += js[i].name
	}
	return scenario{name: name, setup: func(x *sched) ([]func(), func() string, func()) {
		var ss []*Subj
		bads := make([]string, len(js))
		var bodies []func()
		args := argsOf(js...)
		for i := range js {
			i := i
			s, bad := startJob(&js[i])
			s.args = args
			if !js[i].whole {
				s.env.hook(func(byte) { x.yield() })
			}
			bads[i] = bad
			ss = append(ss, s)
			bodies = append(bodies, func() {
				if bads[i] == "" {
					bads[i] = guarded(func() string { return js[i].run(s) })
				}
			})
		}
		judge := func() string {
			if bad := argsChanged(args); bad != "" {
				return bad
			}
			for i := range js {
				if bads[i] != "" {
					return fmt.Sprintf("thread %d (%s): %s", i, js[i].name, bads[i])
				}
				if bad := contentsFinal(ss[i], nil); bad != "" {
					return fmt.Sprintf("afterwards, dictionary %d (%s): %s", i, js[i].name, bad)
				}
				if bad := statsOnly(ss[i]); bad != "" {
					return fmt.Sprintf("afterwards, dictionary %d (%s): %s", i, js[i].name, bad)
				}
			}
			return ""
		}
		return bodies, judge, func() {
			for _, s := range ss {
				s.end()
			}
		}
	}}
}

func argsOf(js ...job) map[string][]byte {
	var ks [][]byte
	for i := range js {
		for j := range js[i].ops {
			ks = append(ks, js[i].ops[j].K, js[i].ops[j].V)
		}
	}
	return sharedArgs(ks...)
}

// share makes the readers of a dictionary use the same slices for keys.
func (s *Subj) share() {
	ks := [][]byte{[]byte("b")}
	for _, k := range s.keys() {
		ks = append(ks, []byte(k), []byte(k+"z"))
	}
	s.args = sharedArgs(ks...)
}

// readers of one dictionary
func readerJobs(ord bool) []job {
	look := func(name string, absent bool) job {
		return job{name: name, run: func(s *Subj) string {
			ks := s.keys()
			for i, k := range ks {
				b := []byte(k)
				if absent {
					b = append(b, 'z')
				}
				if i > 3 && i != len(ks)-1 {
					continue
				}
				o := Op{Kind: opTest, K: b, Want: true}
				out := s.do(&o)
				if out.Panic+out.Bad != "" {
					return out.Panic + out.Bad
				}
			}
			return ""
		}}
	}
	js := []job{look("lookups", false), look("lookups of absent keys", true), {name: "statistics", run: statsOnly},
		{name: "dump", run: func(s *Subj) string {
			rs, bad := s.dump()
			if bad == "" {
				bad = s.same(rs)
			}
			return bad
		}}}
	if ord {
		n := func(desc bool) job {
			return job{name: fmt.Sprintf("iterator (descending: %v)", desc), run: func(s *Subj) string {
				return s.checkRangeShort(desc)
			}}
		}
		js = append(js, n(false), n(true))
	}
	return js
}

// checkRangeShort reads the first records of a range by parts.
func (s *Subj) checkRangeShort(desc bool) string {
	min := bound{k: []byte("b")}
	if b, ok := s.args["b"]; ok {
		min.k, min.shared = b, true
	}
	lo, hi := expectRange(s.sorted, min, bound{mark: 2})
	it := s.rangeOpen(min, bound{mark: 2}, desc)
	for i := 0; i < hi-lo && i < 3; i++ {
		k := s.sorted[lo+i]
		if desc {
			k = s.sorted[hi-1-i]
		}
		n, err := it.GetKeySize()
		buf := make([]byte, len(k)+5)
		n2, err2 := it.ReadKey(len(k)/2, buf)
		v, err3 := it.ReadValueAll()
		if err != nil || err2 != nil || err3 != nil || n != len(k) || string(buf[:n2]) != k[len(k)/2:] || string(v) != s.vals[k] {
			return fmt.Sprintf("record %d of a range is not %s with its value", i, short([]byte(k)))
		}
		it.Advance()
	}
	return ""
}

func readPaths() []Path {
	var ps []Path
	few := []Op{{Kind: opSet, K: []byte("b"), V: []byte("1")}, {Kind: opSet, K: mixBytes(1, 300), V: mixBytes(3, 300)}, {Kind: opSet, K: []byte("q"), V: mixBytes(4, 128)},
		{Kind: opSet, K: append(mixBytes(1, 300), 'x'), V: nil}}
	g := &Geom{Leafs: [][]Rec{leafRecs("B", leafU, []int{maxRec}, true), leafRecs("C", leafU, []int{maxRec, 200}, true), leafRecs("D", leafU, []int{maxRec}, true)}, Levels: [][]int{{3}}}
	ps = append(ps, Path{Ord: true, Env: envB, Ops: few}, Path{Ord: true, Env: envB, Geom: g})
	ps = append(ps, Path{Env: envB, Ops: few}, Path{Env: envB, Table: &TableGeom{Slots: 4, Items: tableItems(6)}})
	return ps
}

// together runs readers in threads on one dictionary.
func together(p Path, js ...job) scenario {
	name := fmt.Sprintf("ordered=%v geom=%v table=%v:", p.Ord, p.Geom != nil, p.Table != nil)
	for i := range js {
		name += " / " + js[i].name
	}
	return scenario{name: name, setup: func(x *sched) ([]func(), func() string, func()) {
		j := job{path: p}
		s, bad := startJob(&j)
		s.share()
		before := s.snapshot()
		s.env.hook(func(byte) {
			if x.cur >= 0 && !js[x.cur].whole {
				x.yield()
			}
		})
		bads := make([]string, len(js))
		var bodies []func()
		for i := range js {
			i := i
			bodies = append(bodies, func() { bads[i] = guarded(func() string { return js[i].run(s) }) })
		}
		judge := func() string {
			if bad != "" {
				return bad
			}
			for i := range js {
				if bads[i] != "" {
					return fmt.Sprintf("reader %d (%s): %s", i, js[i].name, bads[i])
				}
			}
			if m := argsChanged(s.args); m != "" {
				return m
			}
			if m := before.diff(s.snapshot()); m != "" {
				return "reading " + m
			}
			return contentsFinal(s, nil)
		}
		return bodies, judge, s.end
	}}
}

func schedTask(name, bound string, preempt int, mk func() []scenario) Task {
	return Task{Name: name, Bound: fmt.Sprintf("%s; all schedules with at most %d preemptions at storage calls", bound, preempt),
		Run: func(t *T) { exploreSchedules(t, mk(), preempt) },
		Replay: func(raw json.RawMessage) string {
			var c schedCase
			if json.Unmarshal(raw, &c) != nil {
				return ""
			}
			return schedReplay(mk(), c)
		}}
}

// parallel runs jobs freely at the same time.
func parallel(fs []func() string) string {
	var wg sync.WaitGroup
	start := make(chan struct{})
	bads := make([]string, len(fs))
	for i := range fs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			bads[i] = guarded(fs[i])
		}()
	}
	close(start)
	wg.Wait()
	for i, b := range bads {
		if b != "" {
			return fmt.Sprintf("goroutine %d: %s", i, b)
		}
	}
	return ""
}

func separateTasks(tier string) []Task {
	th := tier == "thorough"
	var ts []Task
	js := separateJobs()
	const shards = 8
	for sh := 0; sh < shards; sh++ {
		sh := sh
		bound := 2
		if th {
			bound = 3
		}
		ts = append(ts, schedTask(fmt.Sprintf("schedules/%d", sh), "two threads, each with a dictionary of its own, all pairs of jobs", bound, func() []scenario {
			var scs []scenario
			n := 0
			for i := range js {
				for j := i; j < len(js); j++ {
					if n++; n%shards == sh {
						scs = append(scs, separate(js[i], js[j]))
					}
				}
			}
			return scs
		}))
	}
	for sh := 0; sh < shards; sh++ {
		sh := sh
		ts = append(ts, schedTask(fmt.Sprintf("long/%d", sh), fmt.Sprintf("two threads, each with a dictionary of its own, all pairs of jobs, the second %d times in succession", rounds), 1, func() []scenario {
			var scs []scenario
			n := 0
			for i := range js {
				for j := range js {
					if n++; n%shards == sh {
						scs = append(scs, separate(js[i], repeated(js[j], rounds)))
					}
				}
			}
			return scs
		}))
	}
	if th {
		for sh := 0; sh < shards; sh++ {
			sh := sh
			ts = append(ts, schedTask(fmt.Sprintf("three/%d", sh), "three threads, each with a dictionary of its own", 2, func() []scenario {
				var scs []scenario
				n := 0
				for i := range js {
					for j := i; j < len(js); j++ {
						if n++; n%shards == sh {
							scs = append(scs, separate(js[i], js[j], js[(i+j*3)%len(js)]))
						}
					}
				}
				return scs
			}))
		}
	}
	ts = append(ts, Task{Name: "race/histories", Real: true, Bound: "pairs of histories running freely in two goroutines under the race detector", Run: func(t *T) {
		var ws []sweep
		n := 120
		if th {
			n = 700
		}
		for k := 0; k < 4; k++ {
			ws = append(ws, sweep{ord: k%2 == 0, n: n, pat: []int{0, 2, 2, 1}[k], build: 4, clear: []int{4, 3, 1, 0}[k], reopen: 40})
		}
		run := func(w sweep) func() string {
			return func() string {
				p := w.path()
				s, bad := startPath(&p, nil, false)
				defer s.end()
				for i := range p.Ops {
					if bad != "" {
						break
					}
					out := s.do(&p.Ops[i])
					bad = out.Panic + out.Bad
					if i%50 == 0 && bad == "" {
						bad = contentsFinal(s, nil)
						if bad == "" && s.ord {
							bad = s.checkRangeShort(true)
						}
					}
				}
				if bad == "" {
					bad = statsOnly(s)
				}
				return bad
			}
		}
		for i := range ws {
			for j := i; j < len(ws); j++ {
				if t.expired() {
					return
				}
				tick()
				t.States++
				t.Traces++
				if bad := parallel([]func() string{run(ws[i]), run(ws[j])}); bad != "" {
					t.fail(nil, "%s / %s: %s", ws[i], ws[j], bad)
					return
				}
			}
		}
		t.sample("%s / %s", ws[0], ws[1])
	}})
	ts = append(ts, Task{Name: "race/jobs", Real: true, Bound: "all pairs of jobs, each with a dictionary of its own, running freely under the race detector", Run: func(t *T) {
		for i := range js {
			for j := i; j < len(js); j++ {
				for round := 0; round < 3; round++ {
					if t.expired() {
						return
					}
					tick()
					a, bad := startJob(&js[i])
					b, bad2 := startJob(&js[j])
					bad += bad2
					a.args = argsOf(js[i], js[j])
					b.args = a.args
					if bad == "" {
						bad = parallel([]func() string{func() string { return js[i].run(a) }, func() string { return js[j].run(b) }})
					}
					if bad == "" {
						bad = contentsFinal(a, nil) + contentsFinal(b, nil)
					}
					a.end()
					b.end()
					t.States++
					t.Traces++
					if bad != "" {
						t.fail(nil, "%s / %s: %s", js[i].name, js[j].name, bad)
						return
					}
				}
			}
		}
	}})
	return ts
}

func readerTasks(tier string) []Task {
	th := tier == "thorough"
	var ts []Task
	bound := 2
	if th {
		bound = 3
	}
	for pi, p := range readPaths() {
		p := p
		js := readerJobs(p.Ord)
		ts = append(ts, schedTask(fmt.Sprintf("readers/%d", pi), "two threads reading one dictionary, all pairs of ways of reading", bound, func() []scenario {
			var scs []scenario
			for i := range js {
				for j := i; j < len(js); j++ {
					scs = append(scs, together(p, js[i], js[j]))
				}
			}
			return scs
		}))
		ts = append(ts, schedTask(fmt.Sprintf("readers/long/%d", pi), fmt.Sprintf("two threads reading one dictionary, all pairs of ways of reading, the second %d times in succession", rounds), 1, func() []scenario {
			var scs []scenario
			for i := range js {
				for j := range js {
					scs = append(scs, together(p, js[i], repeated(js[j], rounds)))
				}
			}
			return scs
		}))
		ts = append(ts, Task{Name: fmt.Sprintf("race/readers/%d", pi), Real: true, Bound: "all pairs of ways of reading one dictionary, running freely in four goroutines under the race detector", Run: func(t *T) {
			for i := range js {
				for j := i; j < len(js); j++ {
					if t.expired() {
						return
					}
					tick()
					jb := job{path: p}
					s, bad := startJob(&jb)
					s.share()
					if bad == "" {
						f, g := func() string { return js[i].run(s) }, func() string { return js[j].run(s) }
						bad = parallel([]func() string{f, g, f, g})
					}
					s.end()
					t.States++
					t.Traces++
					if bad != "" {
						t.fail(nil, "%s / %s: %s", js[i].name, js[j].name, bad)
						return
					}
				}
			}
		}})
	}
	return ts
}
