// Command mc explores executions of plainkv exhaustively within bounds.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	exitReproduced = 3
	exitMemory     = 4
	maxHeap        = 6 << 30
	hangSeconds    = 150
)

func main() {
	if len(os.Args) < 2 {
		logf("usage: mc check|task|replay|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	name := fs.String("task", "", "task")
	deadline := fs.Int64("deadline", 0, "unix time in milliseconds")
	budget := fs.Float64("budget", 0, "seconds")
	real := fs.String("real", "", "real flavour")
	race := fs.String("race", "", "real flavour with the race detector")
	verif := fs.String("verif", "/verif", "directory")
	file := fs.String("file", "", "replay file")
	only := fs.String("only", "", "substring of task names")
	jobs := fs.Int("jobs", 0, "processes")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "list":
		for _, t := range tasksFor(*prop, *tier) {
			fmt.Printf("%v\t%s\t%s\n", t.Real, t.Name, t.Bound)
		}
	case "golden":
		os.Exit(goldenMain(*file))
	case "task":
		os.Exit(taskMain(*prop, *tier, *name, *deadline))
	case "replay":
		os.Exit(replayMain(*file, *real, *race))
	case "check":
		os.Exit(checkMain(*prop, *tier, *budget, *real, *race, *verif, *only, *jobs))
	default:
		logf("unknown command %s", cmd)
		os.Exit(2)
	}
}

func findTask(prop, tier, name string) *Task {
	for _, t := range tasksFor(prop, tier) {
		if t.Name == name {
			t := t
			return &t
		}
	}
	return nil
}

func taskMain(prop, tier, name string, deadline int64) int {
	debug.SetGCPercent(400)
	// Runaway recursion and runaway memory end the process with a trace, before
	// the system ends it without one (what has no result is no verdict).
	debug.SetMaxStack(8 << 20)
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(500 * time.Millisecond)
			if runtime.ReadMemStats(&ms); ms.HeapInuse > maxHeap {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "memory grows without bound (%d MB in use)\n%s\n", ms.HeapInuse>>20, buf[:runtime.Stack(buf, true)])
				os.Exit(exitMemory)
			}
		}
	}()
	t := findTask(prop, tier, name)
	if t == nil {
		logf("no task %s of %s", name, prop)
		return 2
	}
	cleanup := envScratch()
	defer cleanup()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sig
		cleanup()
		os.Exit(2)
	}()
	go func() {
		for {
			time.Sleep(2 * time.Second)
			fmt.Printf("hb %d\n", atomic.LoadInt64(&progress))
		}
	}()
	r := runTask(t, prop, tier, time.Unix(0, deadline*1e6))
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	fmt.Printf("result %s\n", b)
	return 0
}

// replayMain executes a failing case again: exit 3 if it fails again.
func replayMain(file, real, race string) int {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		logf("%v", err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		logf("%v", err)
		return 2
	}
	if v.Real && isSim {
		bin := real
		if isRaceTask(v.Task) {
			bin = race
		}
		if bin == "" {
			logf("this case needs the real flavour")
			return 2
		}
		c := exec.Command(bin, "replay", "-file", file)
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		if err := c.Run(); err != nil {
			if ee, ok := err.(*exec.ExitError); ok {
				return ee.ExitCode()
			}
			return 2
		}
		return 0
	}
	t := findTask(v.Prop, v.Tier, v.Task)
	if t == nil {
		logf("no task %s of %s", v.Task, v.Prop)
		return 2
	}
	cleanup := envScratch()
	defer cleanup()
	msg := ""
	if v.Kind == "case" && t.Replay != nil {
		msg = t.Replay(v.Case)
	} else {
		r := runTask(t, v.Prop, v.Tier, time.Now().Add(10*time.Minute))
		if r.Violation != nil {
			msg = r.Violation.Msg
		}
	}
	if msg == "" {
		fmt.Println("does not fail")
		return 0
	}
	fmt.Println("fails:", msg)
	return exitReproduced
}

type outcome struct {
	res    *Result
	crash  string // tail of standard error
	killed bool   // ended from outside (no verdict)
	hung   bool
}

// runProc runs a task in a process of its own.
func runProc(bin, prop, tier string, t *Task, deadline time.Time) outcome {
	c := exec.Command(bin, "task", "-prop", prop, "-tier", tier, "-task", t.Name, "-deadline", fmt.Sprint(deadline.UnixNano()/1e6))
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
	if isRaceTask(t.Name) {
		c.Env = append(c.Env, "GOMAXPROCS=4")
	}
	var stderr bytes.Buffer
	c.Stderr = &limited{w: &stderr, n: 1 << 20}
	out, err := c.StdoutPipe()
	if err != nil {
		return outcome{killed: true, crash: err.Error()}
	}
	if err := c.Start(); err != nil {
		return outcome{killed: true, crash: err.Error()}
	}
	var last int64 = -1
	changed := time.Now()
	hung := false
	var mu sync.Mutex
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			mu.Lock()
			stuck := time.Since(changed) > hangSeconds*time.Second
			if stuck {
				hung = true
			}
			mu.Unlock()
			if stuck {
				c.Process.Signal(syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				c.Process.Kill()
				return
			}
		}
	}()
	var res *Result
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "hb ") {
			var n int64
			fmt.Sscan(l[3:], &n)
			mu.Lock()
			if n != last {
				last = n
				changed = time.Now()
			}
			mu.Unlock()
		} else if strings.HasPrefix(l, "result ") {
			var r Result
			if json.Unmarshal([]byte(l[7:]), &r) == nil {
				res = &r
			}
		}
	}
	err = c.Wait()
	close(done)
	mu.Lock()
	defer mu.Unlock()
	if res != nil && err == nil {
		return outcome{res: res}
	}
	o := outcome{crash: tail(stderr.String()), hung: hung}
	if err != nil && !hung {
		if ee, ok := err.(*exec.ExitError); ok {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() &&
				(ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGTERM || ws.Signal() == syscall.SIGINT) {
				o.killed = true
			}
			if ee.ExitCode() == 2 && stderr.Len() < 200 && !strings.Contains(stderr.String(), "goroutine") {
				o.killed = true
			}
		}
	}
	return o
}

type limited struct {
	w *bytes.Buffer
	n int
}

func (l *limited) Write(b []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(b)
	}
	return len(b), nil
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

func pick(t *Task, self, real, race string) string {
	if isRaceTask(t.Name) {
		return race
	}
	if t.Real {
		return real
	}
	return self
}

func isRaceTask(name string) bool { return strings.HasPrefix(name, "race/") }

func checkMain(prop, tier string, budget float64, real, race, verif, only string, jobs int) int {
	start := time.Now()
	if budget == 0 {
		budget = 150
		if tier == "thorough" {
			budget = 600
		}
	}
	deadline := start.Add(time.Duration(budget * float64(time.Second)))
	self, err := os.Executable()
	if err != nil {
		logf("%v", err)
		return 2
	}
	tasks := tasksFor(prop, tier)
	if len(tasks) == 0 {
		logf("no tasks for %s", prop)
		return 2
	}
	if jobs == 0 {
		jobs = runtime.NumCPU()
	}
	var (
		mu      sync.Mutex
		results = make([]*Result, len(tasks))
		viols   []*Violation
		lost    []string
		wg      sync.WaitGroup
		queue   = make(chan int)
		stop    int32
	)
	for j := 0; j < jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range queue {
				t := &tasks[i]
				if atomic.LoadInt32(&stop) != 0 {
					continue
				}
				bin := pick(t, self, real, race)
				o := runProc(bin, prop, tier, t, deadline)
				if o.res == nil && !o.killed {
					first := o
					limit := deadline
					if d := time.Now().Add(30 * time.Second); d.After(limit) {
						limit = d
					}
					o = runProc(bin, prop, tier, t, limit)
					if o.res == nil && !o.killed {
						what := "the process dies"
						if o.hung && first.hung {
							what = fmt.Sprintf("an operation does not terminate (%d s without progress, twice)", hangSeconds)
						}
						mu.Lock()
						viols = append(viols, &Violation{Prop: prop, Task: t.Name, Kind: "task", Tier: tier, Real: t.Real, Msg: what + ": " + firstLines(o.crash, 12)})
						mu.Unlock()
						atomic.StoreInt32(&stop, 1)
						continue
					}
				}
				if o.res == nil {
					mu.Lock()
					lost = append(lost, t.Name)
					mu.Unlock()
					logf("task %s gave no result: %s", t.Name, firstLines(o.crash, 5))
					continue
				}
				results[i] = o.res
				if v := o.res.Violation; v != nil {
					mu.Lock()
					viols = append(viols, v)
					mu.Unlock()
					atomic.StoreInt32(&stop, 1)
				}
			}
		}()
	}
	for i := range tasks {
		if only != "" && !strings.Contains(tasks[i].Name, only) {
			continue
		}
		queue <- i
	}
	close(queue)
	wg.Wait()

	replays := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(replays, 0777)
	var confirmed []*Violation
	var paths []string
	unconfirmed := 0
	for _, v := range viols {
		b, _ := json.MarshalIndent(v, "", " ")
		path := filepath.Join(replays, fmt.Sprintf("%s-%016x.json", prop, fnv64a(b)))
		ioutil.WriteFile(path, b, 0666)
		ok := true
		if v.Kind == "case" {
			for i := 0; i < 3; i++ {
				if replayProc(self, path, real, race) != exitReproduced {
					ok = false
					break
				}
			}
			if !ok {
				// perhaps it needs what the task did before
				t := findTask(prop, tier, v.Task)
				o := runProc(pick(t, self, real, race), prop, tier, t, time.Now().Add(time.Duration(budget)*time.Second))
				if o.res != nil && o.res.Violation != nil && o.res.Violation.Msg == v.Msg {
					ok = true
					v.Kind = "task"
					b, _ = json.MarshalIndent(v, "", " ")
					ioutil.WriteFile(path, b, 0666)
				}
			}
		} else if !strings.HasPrefix(v.Msg, "the process dies") && !strings.HasPrefix(v.Msg, "an operation does not") {
			t := findTask(prop, tier, v.Task)
			o := runProc(pick(t, self, real, race), prop, tier, t, time.Now().Add(time.Duration(budget)*time.Second))
			ok = o.res == nil || (o.res.Violation != nil && o.res.Violation.Msg == v.Msg)
		}
		if ok {
			confirmed = append(confirmed, v)
			paths = append(paths, path)
		} else {
			unconfirmed++
			logf("not reproduced, therefore not reported: %s: %s", v.Task, v.Msg)
		}
	}
	known := loadKnown(verif)
	exit := 0
	reported := 0
	for i, v := range confirmed {
		if k := known.match(v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		fmt.Printf("%s (task %s)\n", v.Msg, v.Task)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, paths[i])
		exit = 1
		reported++
	}
	writeEvidence(prop, tier, verif, tasks, results, lost, unconfirmed, reported, time.Since(start).Seconds(), only != "")
	if exit == 0 && reported == 0 && only == "" && nothingRan(results) {
		logf("no task gave a result")
		return 2
	}
	return exit
}

func nothingRan(rs []*Result) bool {
	for _, r := range rs {
		if r != nil {
			return false
		}
	}
	return true
}

func replayProc(self, path, real, race string) int {
	c := exec.Command(self, "replay", "-file", path, "-real", real, "-race", race)
	c.Env = append(os.Environ(), "GOMAXPROCS=2")
	err := c.Run()
	if err == nil {
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() > 0 && ee.ExitCode() != 3 {
			return exitReproduced // dies
		}
		return ee.ExitCode()
	}
	return 2
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

// known findings: lines "known: property=<id> task=<substring> <message substring>"
type knownFindings []struct{ prop, task, msg string }

func loadKnown(verif string) knownFindings {
	var k knownFindings
	b, _ := ioutil.ReadFile(filepath.Join(verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(l[len("known: property="):], " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "task=") {
			k = append(k, struct{ prop, task, msg string }{f[0], f[1][5:], f[2]})
		}
	}
	return k
}

func (k knownFindings) match(v *Violation) string {
	for _, f := range k {
		if f.prop == v.Prop && strings.Contains(v.Task, f.task) && strings.Contains(v.Msg, f.msg) {
			return f.msg
		}
	}
	return ""
}

func writeEvidence(prop, tier, verif string, tasks []Task, results []*Result, lost []string, unconfirmed, violations int, wall float64, partial bool) {
	var states, trans, traces int64
	complete := len(lost) == 0 && !partial
	notes := map[string]interface{}{}
	var samples []interface{}
	type line struct {
		Task        string         `json:"task"`
		Bound       string         `json:"bound,omitempty"`
		Storage     string         `json:"storage"`
		States      int64          `json:"states"`
		Transitions int64          `json:"transitions"`
		Traces      int64          `json:"traces_on_real_storage,omitempty"`
		Complete    bool           `json:"complete"`
		Notes       map[string]int `json:"notes,omitempty"`
		Wall        float64        `json:"wall_s"`
	}
	var lines []line
	for i, r := range results {
		if r == nil {
			complete = false
			continue
		}
		if !r.Complete {
			complete = false
		}
		states += r.States
		trans += r.Transitions
		traces += r.Traces
		st := "model"
		if tasks[i].Real {
			st = "real"
		}
		lines = append(lines, line{r.Task, r.Bound, st, r.States, r.Transitions, r.Traces, r.Complete, r.Notes, r.Wall})
		for _, s := range r.Samples {
			if len(samples) < 8 {
				samples = append(samples, r.Task+": "+s)
			}
		}
	}
	sort.Slice(lines, func(i, j int) bool { return lines[i].Task < lines[j].Task })
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	notes["lost_tasks"] = lost
	notes["unconfirmed"] = unconfirmed
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces,
			"samples": samples, "exhaustive": complete, "tasks": lines, "notes": notes,
		},
		"assumptions": assumptions(prop),
		"wall_s":      wall,
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0777)
	ioutil.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0666)
}
