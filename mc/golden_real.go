//go:build !sim
// +build !sim

package main

import (
	"bytes"
	"compress/gzip"
	"embed"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
)

//go:embed golden
var goldenFiles embed.FS

// goldenMain writes the files.
func goldenMain(dir string) int {
	cleanup := envScratch()
	defer cleanup()
	failed := 0
	for _, g := range goldens() {
		g := g
		s, bad := runPath(&g.p, nil, &Mon{after: badResult}, 0)
		if bad == "" {
			var rs []Rec
			if rs, bad = s.dump(); bad == "" {
				bad = s.same(rs)
			}
		}
		if m := s.close(); bad == "" {
			bad = m
		}
		if bad != "" {
			logf("%s: %s", g.name, bad)
			failed = 1
			continue
		}
		raw, err := ioutil.ReadFile(s.env.Name)
		if err != nil {
			panic(err)
		}
		var b bytes.Buffer
		z, _ := gzip.NewWriterLevel(&b, 9)
		z.Write(raw)
		z.Close()
		if err := ioutil.WriteFile(filepath.Join(dir, g.name+".gz"), b.Bytes(), 0666); err != nil {
			panic(err)
		}
		fmt.Println(g.name, len(raw), b.Len(), len(s.vals))
		s.end()
	}
	return failed
}

// goldenSubj opens a copy of a file.
func goldenSubj(g *goldenFile, raw []byte) (*Subj, string) {
	s := &Subj{ord: g.p.Ord, vals: map[string]string{}, rootHint: -1, env: &Env{Name: newName()}}
	for i := range g.p.Ops {
		s.modelOp(&g.p.Ops[i])
	}
	if err := ioutil.WriteFile(s.env.Name, raw, 0666); err != nil {
		panic(err)
	}
	return s, s.open(false)
}

func goldenTasks(tier string) []Task { return goldenList(tier, goldenCheck) }

func goldenCheck(t *T, g *goldenFile, th bool) {
	zb, err := goldenFiles.ReadFile("golden/" + g.name + ".gz")
	if err != nil {
		panic(err)
	}
	z, err := gzip.NewReader(bytes.NewReader(zb))
	if err != nil {
		panic(err)
	}
	raw, err := ioutil.ReadAll(z)
	if err != nil {
		panic(err)
	}
	// each of the operations on a copy of its own (0: none), then all in a row
	probe, bad := goldenSubj(g, raw)
	if bad != "" {
		t.fail(nil, "%s, written by the pinned version: %s", g.name, bad)
		return
	}
	ops := goldenOps(probe, th)
	probe.end()
	try := func(what string, ops []Op, drain int, full bool) bool {
		tick()
		s, bad := goldenSubj(g, raw)
		defer func() {
			s.end()
			os.Remove(s.env.Name)
		}()
		for i := 0; i < len(ops) && bad == ""; i++ {
			out := s.do(&ops[i])
			if bad = out.Bad; out.Panic != "" {
				bad = fmt.Sprintf("%s panics: %s", &ops[i], out.Panic)
			}
			t.Transitions++
		}
		if bad == "" && full {
			bad = contentsFinal(s, nil)
		}
		if bad == "" {
			bad = monLayout().final(s, nil)
		}
		if bad == "" && drain >= 0 {
			if bad = s.drain(drain); bad == "" {
				bad = contentsFinal(s, nil)
			}
		}
		t.States++
		t.Traces++
		if bad != "" {
			t.fail(nil, "%s, written by the pinned version: %s (%s)", g.name, bad, what)
			return false
		}
		return true
	}
	if !try("as it is", nil, -1, true) {
		return
	}
	for i := range ops {
		if t.expired() || !try(ops[i].String(), ops[i:i+1], -1, len(raw) < 1<<17 || th) {
			return
		}
	}
	for d := 0; d < 3; d++ {
		if t.expired() || !try("all operations in a row, then emptied", ops, d, true) {
			return
		}
	}
	t.sample("%s: %d bytes", g.name, len(raw))
}
