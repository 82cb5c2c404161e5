package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync/atomic"
	"time"
)

// Violation is a failing execution.
type Violation struct {
	Prop string          `json:"property"`
	Task string          `json:"task"`
	Kind string          `json:"kind"` // how to replay it: "case", or "task" for the whole task
	Case json.RawMessage `json:"case,omitempty"`
	Msg  string          `json:"msg"`
	Tier string          `json:"tier"`
	Real bool            `json:"real"`
}

// Result is what a task covered.
type Result struct {
	Task        string         `json:"task"`
	States      int64          `json:"states"`
	Transitions int64          `json:"transitions"`
	Traces      int64          `json:"traces"`
	Complete    bool           `json:"complete"`
	Notes       map[string]int `json:"notes,omitempty"`
	Samples     []string       `json:"samples,omitempty"`
	Violation   *Violation     `json:"violation,omitempty"`
	Wall        float64        `json:"wall"`
	Bound       string         `json:"bound,omitempty"`
}

// T is a running task.
type T struct {
	Result
	prop     string
	tier     string
	deadline time.Time
}

// Task is a unit of exploration, executed by one worker process.
type Task struct {
	Name   string
	Real   bool // runs in the real flavour
	Bound  string
	Run    func(t *T)
	Replay func(raw json.RawMessage) string // executes a failing case, "" if it does not fail
}

// progress counts executions; the parent watches it.
var progress int64

func tick() { atomic.AddInt64(&progress, 1) }

func (t *T) thorough() bool { return t.tier == "thorough" }

// expired tells whether the time is used up; the task is incomplete then.
func (t *T) expired() bool {
	if time.Now().After(t.deadline) {
		t.Complete = false
		return true
	}
	return false
}

func (t *T) note(k string, n int) {
	if t.Notes == nil {
		t.Notes = map[string]int{}
	}
	t.Notes[k] += n
}

func (t *T) max(k string, n int) {
	if t.Notes == nil {
		t.Notes = map[string]int{}
	}
	if t.Notes[k] < n {
		t.Notes[k] = n
	}
}

func (t *T) sample(f string, a ...interface{}) {
	if len(t.Samples) < 2 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.Samples = append(t.Samples, s)
	}
}

func (t *T) failed() bool { return t.Violation != nil }

// fail records a violation to be replayed with the given case (nil: the whole task).
func (t *T) fail(c interface{}, f string, a ...interface{}) {
	if t.Violation != nil {
		return
	}
	var raw json.RawMessage
	kind := "task"
	if c != nil {
		raw, _ = json.Marshal(c)
		kind = "case"
	}
	t.Violation = &Violation{Prop: t.prop, Task: t.Name(), Kind: kind, Case: raw, Msg: fmt.Sprintf(f, a...), Tier: t.tier, Real: !isSim}
}

// Name returns the name of the task.
func (t *T) Name() string { return t.Result.Task }

func runTask(tk *Task, prop, tier string, deadline time.Time) *Result {
	t := &T{prop: prop, tier: tier, deadline: deadline}
	t.Result.Task = tk.Name
	t.Bound = tk.Bound
	t.Complete = true
	start := time.Now()
	if m := guard(func() { tk.Run(t) }); m != "" {
		// not a failure of the code under test as such: operations are guarded
		t.fail(nil, "task panics: %s", m)
	}
	t.Wall = time.Since(start).Seconds()
	return &t.Result
}

func logf(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f+"\n", a...) }

// Mon is a monitor: the oracle of a property.
type Mon struct {
	scribble bool
	before   func(s *Subj, o *Op)
	after    func(s *Subj, o *Op, out *Out) string
	probe    func(s *Subj) string          // reads in the middle of a history
	state    func(s *Subj) string          // must not change anything
	final    func(s *Subj, p *Path) string // may do anything
}

func (m *Mon) onAfter(s *Subj, o *Op, out *Out) string {
	if out.Panic != "" {
		return fmt.Sprintf("%s panics: %s", o, out.Panic)
	}
	if m.after != nil {
		return m.after(s, o, out)
	}
	return ""
}

// runPath executes a path under a monitor: operations before index from are
// executed without oracle. It returns the subject (to be ended) and a verdict.
func runPath(p *Path, tmpl *Env, m *Mon, from int) (*Subj, string) {
	tick()
	s, bad := startPath(p, tmpl, m.scribble)
	if bad != "" {
		return s, bad
	}
	if m.probe != nil && p.Probe == nil {
		p.Probe = probesOf(p, from)
	}
	probes := p.Probe
	s.salt = int(pathHash(p) >> 8)
	for i := range p.Ops {
		o := &p.Ops[i]
		for m.probe != nil && len(probes) > 0 && probes[0] <= i {
			if probes[0] == i {
				if bad := m.probe(s); bad != "" {
					return s, fmt.Sprintf("before %s: %s", o, bad)
				}
			}
			probes = probes[1:]
		}
		if i >= from && m.before != nil {
			m.before(s, o)
		}
		out := s.do(o)
		if out.Panic != "" {
			return s, fmt.Sprintf("%s panics: %s", o, out.Panic)
		}
		if i >= from {
			if bad := m.onAfter(s, o, &out); bad != "" {
				return s, bad
			}
		}
	}
	if m.state != nil {
		if bad := m.state(s); bad != "" {
			return s, bad
		}
	}
	if m.probe != nil && len(probes) > 0 && probes[0] == len(p.Ops) {
		if bad := m.probe(s); bad != "" {
			return s, bad
		}
	}
	return s, ""
}

// probesOf chooses the operations of a history before which everything is
// read, so that what reads leave behind is there when something changes: none,
// the last one, the last step, the last but one, or all of the last ones.
// Histories which differ in anything choose differently.
func probesOf(p *Path, from int) []int {
	n := len(p.Ops)
	if n == 0 {
		return []int{}
	}
	lo := n - 12
	if lo < 0 {
		lo = 0
	}
	switch pathHash(p) % 8 {
	case 0:
		return []int{}
	case 1, 2, 3:
		if from > 0 && from < n-1 {
			return []int{from}
		}
	case 4, 5:
		if n > 1 {
			return []int{n - 2}
		}
	case 6:
		ps := []int{}
		for i := lo; i < n; i++ {
			ps = append(ps, i)
		}
		return ps
	}
	return []int{n - 1}
}

func pathHash(p *Path) uint32 {
	n := len(p.Ops)
	h := uint32(2166136261)
	mix := func(x uint32) { h = (h ^ x) * 16777619 }
	lo := n - 12
	if lo < 0 {
		lo = 0
	}
	for i := lo; i < n; i++ {
		o := &p.Ops[i]
		mix(uint32(o.Kind))
		mix(uint32(len(o.K)))
		mix(uint32(len(o.V)))
		for _, c := range o.K {
			mix(uint32(c))
		}
	}
	return h ^ h>>15
}

// finish applies the final oracle.
func finish(s *Subj, p *Path, m *Mon) string {
	if m.final != nil {
		return m.final(s, p)
	}
	return ""
}

// checkPath runs a path with all oracles at every step.
func checkPath(p *Path, m *Mon) string {
	s, bad := runPath(p, template(p), m, 0)
	defer s.end()
	if bad != "" {
		return bad
	}
	return finish(s, p, m)
}

// BFS explores all histories over an alphabet up to a depth, merging
// histories which lead to the same stored state.
type BFS struct {
	Start     Path
	Alphabet  []Op
	Groups    [][]Op // macro operations, in addition to the alphabet
	Depth     int
	MaxStates int
	Mon       *Mon
	Every     int // final oracle at every n-th state only (0: all)
}

type bfsNode struct{ path []uint16 }

func (b *BFS) expand(path []uint16) []Op {
	var ops []Op
	for _, i := range path {
		if int(i) < len(b.Alphabet) {
			ops = append(ops, b.Alphabet[i])
		} else {
			ops = append(ops, b.Groups[int(i)-len(b.Alphabet)]...)
		}
	}
	return ops
}

// Run explores breadth first.
func (b *BFS) Run(t *T) {
	tmpl := template(&b.Start)
	if tmpl != nil {
		defer tmpl.drop()
	}
	seen := map[hashKey]bool{}
	n2 := 0
	n := len(b.Alphabet) + len(b.Groups)
	visit := func(path []uint16, from int) (ok bool, fresh bool) {
		p := b.Start
		p.Ops = b.expand(path)
		s, bad := runPath(&p, tmpl, b.Mon, from)
		defer s.end()
		if bad == "" {
			h, complete := s.stateHash()
			if !complete {
				// not decodable: do not merge
				hh := newHasher()
				for _, i := range path {
					hh.int(int(i))
				}
				h = hh.sum()
			}
			if isSim {
				fresh = !seen[h]
				seen[h] = true
			} else {
				fresh = true
			}
			switch {
			case fresh && (b.Every == 0 || len(seen)%b.Every == 0):
				bad = finish(s, &p, b.Mon)
			case !fresh && len(p.Probe) > 0:
				// the state is known, but not what an earlier read left behind
				if n2++; n2%2 == 0 {
					bad = b.Mon.probe(s)
					p.Probe = append(p.Probe, len(p.Ops))
				}
			}
		}
		if bad != "" {
			t.fail(p, "%s", bad)
			return false, false
		}
		return true, fresh
	}
	if ok, _ := visit(nil, 0); !ok {
		return
	}
	t.States++
	frontier := [][]uint16{nil}
	depth := 0
	for ; depth < b.Depth && len(frontier) > 0; depth++ {
		var next [][]uint16
		for _, path := range frontier {
			if t.expired() {
				t.note("depth completed", depth)
				return
			}
			from := len(b.expand(path))
			for i := 0; i < n; i++ {
				np := append(append(make([]uint16, 0, len(path)+1), path...), uint16(i))
				ok, fresh := visit(np, from)
				t.Transitions++
				if !ok {
					return
				}
				if fresh {
					t.States++
					next = append(next, np)
					if t.States == 20 {
						t.sample("%v", b.expand(np))
					}
					if b.MaxStates > 0 && int(t.States) >= b.MaxStates {
						t.Complete = false
						t.note("state limit reached", 1)
						t.note("depth completed", depth)
						return
					}
				}
			}
		}
		frontier = next
	}
	if len(frontier) == 0 {
		t.note("closed", 1)
	}
	t.max("depth", depth)
}
