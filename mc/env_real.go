//go:build !sim
// +build !sim

package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync/atomic"

	"github.com/roy2220/fsm"
)

const isSim = false

// Env is a file of the storage.
type Env struct {
	Name string
	Cfg  EnvCfg
	kept []int64 // foreign space
}

var (
	envSeq int64
	envDir string
)

// envScratch makes the scratch directory; the function returned removes it.
func envScratch() func() {
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = ""
	}
	d, err := ioutil.TempDir(base, "verif-mc-")
	if err != nil {
		d, err = ioutil.TempDir("", "verif-mc-")
		if err != nil {
			panic(err)
		}
	}
	envDir = d
	return func() { os.RemoveAll(d) }
}

func newName() string {
	return filepath.Join(envDir, fmt.Sprintf("f%d", atomic.AddInt64(&envSeq, 1)))
}

func newEnv(cfg EnvCfg) *Env {
	e := &Env{Name: newName(), Cfg: cfg}
	if cfg.Pre != nil {
		fs := new(fsm.FileStorage).Init()
		if err := fs.Open(e.Name, true); err != nil {
			panic(err)
		}
		e.kept = prefill(fs, cfg.Pre)
		if err := fs.Close(); err != nil {
			panic(err)
		}
	}
	return e
}

// hook does nothing.
func (e *Env) hook(f func(kind byte)) {}

func (e *Env) drop() { os.Remove(e.Name) }

func (e *Env) budget(n int64) {}

func (e *Env) track() {}

func (e *Env) touched() (pages, spaces int) { return 0, 0 }

type realWriter struct {
	fs  *fsm.FileStorage
	put []func()
	at  map[int64][]byte
}

func (w *realWriter) At(addr int64) []byte { return w.at[addr] }

func (w *realWriter) NewAligned(size int) (int64, []byte) {
	a, _ := w.fs.AllocateAlignedSpace(size)
	b := make([]byte, size)
	w.put = append(w.put, func() { copy(w.fs.AccessAlignedSpace(a), b) })
	return a, b
}

func (w *realWriter) NewSpace(size int) (int64, []byte) {
	a, _ := w.fs.AllocateSpace(size)
	b := make([]byte, size)
	w.at[a] = b
	w.put = append(w.put, func() { copy(w.fs.AccessSpace(a), b) })
	return a, b
}

func buildImage(cfg EnvCfg, write func(w Writer) []byte) *Env {
	e := newEnv(cfg)
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(e.Name, true); err != nil {
		panic(err)
	}
	w := &realWriter{fs: fs, at: map[int64][]byte{}}
	info := write(w)
	a, b := w.NewSpace(len(info))
	copy(b, info)
	for _, f := range w.put {
		f()
	}
	fs.SetPrimarySpace(a)
	if err := fs.Close(); err != nil {
		panic(err)
	}
	return e
}

func copyFile(from, to string) {
	b, err := ioutil.ReadFile(from)
	if err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(to, b, 0666); err != nil {
		panic(err)
	}
}

func (e *Env) clone() *Env {
	c := &Env{Name: newName(), Cfg: e.Cfg, kept: e.kept}
	copyFile(e.Name, c.Name)
	return c
}

type realImage struct{ fs *fsm.FileStorage }

func (i realImage) Aligned(a int64) (b []byte) {
	defer func() {
		if recover() != nil {
			b = nil
		}
	}()
	return i.fs.AccessAlignedSpace(a)
}

func (i realImage) Space(a int64) (b []byte) {
	defer func() {
		if recover() != nil {
			b = nil
		}
	}()
	return i.fs.AccessSpace(a)
}

// image calls f with the contents of a copy of the closed file.
func (e *Env) image(f func(img Image, primary int64)) {
	n := newName()
	copyFile(e.Name, n)
	defer os.Remove(n)
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(n, false); err != nil {
		panic(err)
	}
	f(realImage{fs}, fs.PrimarySpace())
	fs.Close()
}

func (e *Env) live() (int, int) { return 0, 0 }

func (e *Env) contentHash() hashKey { return hashKey{} }

func (e *Env) eventCount() int { return 0 }

func newScratchDir() string {
	d := newName()
	if err := os.Mkdir(d, 0777); err != nil {
		panic(err)
	}
	return d
}

func (e *Env) fsmStats() (fsm.Stats, bool) { return fsm.Stats{}, false }
