package main

import "github.com/roy2220/fsm"

// EnvCfg decides the behaviour of the storage (model storage only, except Pre).
type EnvCfg struct {
	Base     int64 `json:"base,omitempty"`
	Reuse    int   `json:"reuse,omitempty"`    // 0 last released first, 1 first released first, 2 never
	Fill     int   `json:"fill,omitempty"`     // content of fresh space: byte, 256: that of space released before
	Slack    int   `json:"slack,omitempty"`    // bytes granted beyond the size requested
	Relocate int   `json:"relocate,omitempty"` // 0 at every allocation/release, 1 never, 2 at the events listed
	At       []int `json:"at,omitempty"`
	Pre      *Pre  `json:"pre,omitempty"`
}

// Pre is foreign space in the file before the dictionary is made.
type Pre struct {
	Size    int  `json:"size"`
	Count   int  `json:"count"`
	Aligned bool `json:"aligned,omitempty"`
	Free    int  `json:"free,omitempty"` // release: 0 nothing, 1 every second one, 2 all
}

func (p *Pre) freed(i int) bool { return p.Free == 2 || (p.Free == 1 && i%2 == 0) }

const preByte = 0x7E

const lowBase = int64(1 << 13) // nothing is ever placed at the start of a file

const highBase = int64(0x0012345680000000)

var (
	envA = EnvCfg{Base: lowBase, Fill: 0xA5}
	envB = EnvCfg{Base: 1 << 20, Fill: 0, Slack: 13, Relocate: 1}
	envC = EnvCfg{Base: highBase, Fill: 0xFF, Reuse: 2}
	envD = EnvCfg{Base: lowBase, Fill: 256, Reuse: 0, Slack: 5}
	envs = []EnvCfg{envA, envB, envC, envD}
)

const defaultBudget = 2000000

// prefill allocates foreign space and returns what is kept of it.
func prefill(fs *fsm.FileStorage, p *Pre) (kept []int64) {
	var as []int64
	for i := 0; i < p.Count; i++ {
		var a int64
		var b []byte
		if p.Aligned {
			a, b = fs.AllocateAlignedSpace(p.Size)
		} else {
			a, b = fs.AllocateSpace(p.Size)
		}
		for j := range b {
			b[j] = preByte
		}
		as = append(as, a)
	}
	for i, a := range as {
		if !p.freed(i) {
			kept = append(kept, a)
			continue
		}
		if p.Aligned {
			fs.FreeAlignedSpace(a)
		} else {
			fs.FreeSpace(a)
		}
	}
	return
}
