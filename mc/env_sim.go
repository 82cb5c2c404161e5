//go:build sim
// +build sim

package main

import (
	"fmt"
	"sync/atomic"

	"github.com/roy2220/fsm"
)

const isSim = true

// Env is a file of the storage.
type Env struct {
	Name string
	Cfg  EnvCfg
	kept []int64 // foreign space
	D    *fsm.Disk
}

var envSeq int64

func fsmCfg(c EnvCfg) fsm.Config {
	return fsm.Config{Base: c.Base, Reuse: c.Reuse, Fill: c.Fill, Slack: c.Slack, Relocate: c.Relocate, At: c.At}
}

func newEnv(cfg EnvCfg) *Env {
	n := fmt.Sprintf("sim:%d", atomic.AddInt64(&envSeq, 1))
	e := &Env{Name: n, Cfg: cfg, D: fsm.NewDisk(n, fsmCfg(cfg))}
	if cfg.Pre != nil {
		e.prefill(cfg.Pre)
	}
	return e
}

func (e *Env) prefill(p *Pre) {
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(e.Name, true); err != nil {
		panic(err)
	}
	e.kept = prefill(fs, p)
	fs.Close()
}

// hook calls f at every storage call.
func (e *Env) hook(f func(kind byte)) { e.D.Hook = f }

// drop forgets the file.
func (e *Env) drop() { fsm.DropDisk(e.Name) }

// budget sets the number of storage calls left.
func (e *Env) budget(n int64) { e.D.Budget = n }

// track starts counting the spaces touched.
func (e *Env) track() { e.D.Touched = map[*fsm.Block]bool{} }

// touched returns the number of pages and other spaces touched, and stops counting.
func (e *Env) touched() (pages, spaces int) {
	for b := range e.D.Touched {
		if b.Aligned {
			pages++
		} else {
			spaces++
		}
	}
	e.D.Touched = nil
	return
}

type simWriter struct{ d *fsm.Disk }

func (w simWriter) NewAligned(size int) (int64, []byte) {
	b := w.d.Put(size, true)
	return b.Addr, b.Data
}

func (w simWriter) NewSpace(size int) (int64, []byte) {
	b := w.d.Put(size, false)
	return b.Addr, b.Data
}

func (w simWriter) At(addr int64) []byte { return w.d.Lookup(addr).Data }

// buildImage makes a closed file with contents; write returns the descriptor.
func buildImage(cfg EnvCfg, write func(w Writer) []byte) *Env {
	e := newEnv(cfg)
	w := simWriter{e.D}
	info := write(w)
	a, b := w.NewSpace(len(info))
	copy(b, info)
	e.D.Primary = a
	e.D.Events, e.D.Allocs = 0, 0
	return e
}

// clone copies a closed file.
func (e *Env) clone() *Env {
	n := fmt.Sprintf("sim:%d", atomic.AddInt64(&envSeq, 1))
	c := &Env{Name: n, Cfg: e.Cfg, kept: e.kept, D: e.D.Clone(fsmCfg(e.Cfg))}
	fsm.PutDisk(n, c.D)
	return c
}

type simImage struct{ d *fsm.Disk }

func (i simImage) Aligned(a int64) []byte {
	if b := i.d.Lookup(a); b != nil && b.Aligned {
		return b.Data
	}
	return nil
}

func (i simImage) Space(a int64) []byte {
	if b := i.d.Lookup(a); b != nil && !b.Aligned {
		return b.Data
	}
	return nil
}

// image calls f with the contents and the primary space of the file (which
// may be open, but then the primary space is meaningless).
func (e *Env) image(f func(img Image, primary int64)) { f(simImage{e.D}, e.D.Primary) }

// live returns the number of spaces allocated and their total size.
func (e *Env) live() (int, int) { return e.D.NLive, e.D.Bytes }

// contentHash hashes everything allocated, with addresses.
func (e *Env) contentHash() hashKey {
	h := newHasher()
	for _, b := range e.D.LiveBlocks() {
		h.int(int(b.Addr))
		h.bytes(b.Data)
	}
	return h.sum()
}

func (e *Env) eventCount() int { return e.D.Events }

func envScratch() func() { return func() {} }

func newScratchDir() string { panic("no files in the model") }

func copyFile(from, to string) { panic("no files in the model") }

// fsmStats returns the statistics of the storage, and whether they are known.
func (e *Env) fsmStats() (fsm.Stats, bool) { return e.D.Stats(), true }
