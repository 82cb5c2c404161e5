package main

import (
	"fmt"
	"runtime"
	"time"
)

// sched executes threads one at a time; the running thread may be preempted
// at every storage call.
type sched struct {
	cur    int
	resume []chan struct{}
	ev     chan int // thread id: at a scheduling point; -1-id: done
}

func (x *sched) yield() {
	if x.cur < 0 {
		return
	}
	id := x.cur
	x.ev <- id
	<-x.resume[id]
}

type point struct {
	enabled, choice int
	add             int // what switching costs: 1 if the running thread could go on
}

// run executes the bodies; choices beyond those given continue the running
// thread. It returns the points passed, nil if a thread blocks.
func (x *sched) run(bodies []func(), choices []int) []point {
	n := len(bodies)
	x.cur = -1
	x.resume = make([]chan struct{}, n)
	x.ev = make(chan int)
	alive := make([]bool, n)
	for i := range bodies {
		i := i
		x.resume[i] = make(chan struct{})
		alive[i] = true
		go func() {
			<-x.resume[i]
			bodies[i]()
			x.ev <- -1 - i
		}()
	}
	var pts []point
	timer := time.NewTimer(10 * time.Second)
	defer timer.Stop()
	for {
		var order []int
		curAlive := x.cur >= 0 && alive[x.cur]
		if curAlive {
			order = append(order, x.cur)
		}
		for i := range alive {
			if alive[i] && !(curAlive && i == x.cur) {
				order = append(order, i)
			}
		}
		if len(order) == 0 {
			return pts
		}
		c := 0
		if len(pts) < len(choices) {
			c = choices[len(pts)]
		}
		if c >= len(order) {
			return nil // does not follow the same course again
		}
		add := 0
		if curAlive {
			add = 1
		}
		pts = append(pts, point{len(order), c, add})
		x.cur = order[c]
		x.resume[x.cur] <- struct{}{}
		select {
		case e := <-x.ev:
			if e < 0 {
				alive[-1-e] = false
			}
		case <-timer.C:
			return nil
		}
	}
}

// nextChoices returns the choices of the next schedule within the preemption
// bound, nil if there is none.
func nextChoices(pts []point, bound int) []int {
	cost := make([]int, len(pts)+1)
	for i, p := range pts {
		cost[i+1] = cost[i]
		if p.choice > 0 {
			cost[i+1] += p.add
		}
	}
	for i := len(pts) - 1; i >= 0; i-- {
		p := pts[i]
		if p.choice+1 >= p.enabled || cost[i]+p.add > bound {
			continue
		}
		out := make([]int, i+1)
		for j := 0; j < i; j++ {
			out[j] = pts[j].choice
		}
		out[i] = p.choice + 1
		return out
	}
	return nil
}

// schedCase is a schedule of a numbered configuration.
type schedCase struct {
	Config  string `json:"config"`
	Choices []int  `json:"choices"`
}

// scenario builds fresh bodies and a judge for one execution.
type scenario struct {
	name  string
	setup func(x *sched) (bodies []func(), judge func() string, end func())
}

func (sc *scenario) once(choices []int) (pts []point, bad string) {
	tick()
	x := &sched{cur: -1}
	bodies, judge, end := sc.setup(x)
	pts = x.run(bodies, choices)
	x.cur = -1
	if pts == nil {
		return nil, ""
	}
	bad = judge()
	end()
	return
}

func exploreSchedules(t *T, scs []scenario, bound int) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	for i := range scs {
		sc := &scs[i]
		var choices []int
		n := 0
		t.States++
		for {
			if t.expired() {
				return
			}
			pts, bad := sc.once(choices)
			if pts == nil {
				t.Complete = false
				t.note("blocked or diverged", 1)
				return
			}
			n++
			t.Transitions += int64(len(pts))
			t.note("schedules", 1)
			if bad != "" {
				t.fail(schedCase{sc.name, choices}, "%s: %s", sc.name, bad)
				return
			}
			if choices = nextChoices(pts, bound); choices == nil {
				break
			}
		}
		if i == 0 {
			t.sample("%s: %d schedules with at most %d preemptions", sc.name, n, bound)
		}
	}
	t.max("scenarios", len(scs))
}

func schedReplay(scs []scenario, c schedCase) string {
	for i := range scs {
		if scs[i].name == c.Config {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
			_, bad := scs[i].once(c.Choices)
			if bad != "" {
				return fmt.Sprintf("%s: %s", c.Config, bad)
			}
		}
	}
	return ""
}
