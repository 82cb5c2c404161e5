// Package fsm is a model of github.com/roy2220/fsm (same exported interface)
// whose storage lives in memory and whose nondeterminism - where space is
// placed, when the mapping moves, what fresh space contains, how much more
// than requested is granted - is decided by the harness through Config.
//
// The contract of the real package which the model keeps (and which the
// conformance runs of the harness check against the real package):
//   - an accessor gives access to exactly the granted space, at least the size
//     requested;
//   - an accessor may become invalid at any Allocate.../Free... call: with
//     Relocate every accessor handed out is moved at each such call and the
//     memory behind the old one is overwritten with PoisonByte;
//   - freeing or accessing space not currently allocated, or of the other kind
//     (aligned or not), is an error: the model panics with a Violation.
package fsm

import (
	"errors"
	"fmt"
	"os"
	"sync"
)

// PoisonByte fills memory behind invalidated accessors.
const PoisonByte = 0xDB

// Reuse policies.
const (
	ReuseLIFO  = 0
	ReuseFIFO  = 1
	ReuseNever = 2
)

// Relocation policies.
const (
	RelocateAlways = 0
	RelocateNever  = 1
	RelocateAt     = 2
)

// Fill policies for fresh space (values 0..255 are constant bytes).
const FillStale = 256

// Config decides the nondeterminism of a disk.
type Config struct {
	Base     int64 `json:"base,omitempty"`
	Reuse    int   `json:"reuse,omitempty"`
	Fill     int   `json:"fill,omitempty"`
	Slack    int   `json:"slack,omitempty"`
	Relocate int   `json:"relocate,omitempty"`
	At       []int `json:"at,omitempty"` // indices of the events (allocations and releases) at which to relocate
}

// Violation is what the model panics with on misuse.
type Violation struct{ Msg string }

func (v Violation) Error() string { return "storage misuse: " + v.Msg }

// Block is an allocated space.
type Block struct {
	Addr    int64
	Data    []byte
	Size    int
	Aligned bool
	Live    bool
	shared  bool
	exposed bool
}

// Disk is a file.
type Disk struct {
	Cfg     Config
	Exists  bool
	Opened  bool
	Primary int64
	blocks  []*Block // by id
	free    []int    // ids
	exposed []*Block
	stale   []byte
	Events  int // allocations and releases so far
	Allocs  int
	Frees   int
	Calls   int64
	Budget  int64 // storage calls left; < 0: unlimited
	NLive   int
	Bytes   int
	Hook    func(kind byte) // called at the start of every storage call
	Touched map[*Block]bool // spaces allocated, accessed or released, if not nil
}

// moveLimit is the size above which spaces are not moved.
const moveLimit = 64 << 20

const (
	stride   = 1 << 13
	poolSkew = 64
)

var (
	mu    sync.Mutex
	disks = map[string]*Disk{}
)

// NewDisk registers a disk under the given file name (in place of the one registered).
func NewDisk(name string, cfg Config) *Disk {
	d := &Disk{Cfg: cfg, Primary: -1, Budget: -1}
	mu.Lock()
	disks[name] = d
	mu.Unlock()
	return d
}

// PutDisk registers the given disk under the given file name.
func PutDisk(name string, d *Disk) {
	mu.Lock()
	disks[name] = d
	mu.Unlock()
}

// GetDisk returns the disk registered under the given file name.
func GetDisk(name string) *Disk {
	mu.Lock()
	defer mu.Unlock()
	return disks[name]
}

// DropDisk forgets a disk.
func DropDisk(name string) {
	mu.Lock()
	delete(disks, name)
	mu.Unlock()
}

// Clone returns a copy of a closed disk (contents are copied lazily).
func (d *Disk) Clone(cfg Config) *Disk {
	if d.Opened {
		panic("simfsm: clone of an open disk")
	}
	if cfg.Base != d.Cfg.Base {
		panic("simfsm: clone with another base")
	}
	c := &Disk{Cfg: cfg, Exists: d.Exists, Primary: d.Primary, Budget: -1, NLive: d.NLive, Bytes: d.Bytes}
	c.blocks = make([]*Block, len(d.blocks))
	backing := make([]Block, len(d.blocks))
	for i, b := range d.blocks {
		if b == nil {
			continue
		}
		b.shared = true
		backing[i] = *b
		backing[i].exposed = false
		c.blocks[i] = &backing[i]
	}
	c.free = append([]int(nil), d.free...)
	return c
}

func (d *Disk) call(kind byte) {
	d.Calls++
	if d.Budget >= 0 {
		if d.Budget == 0 {
			panic(Violation{"storage call budget exhausted: the operation does not terminate"})
		}
		d.Budget--
	}
	if d.Hook != nil {
		d.Hook(kind)
	}
}

func (d *Disk) touch(b *Block) {
	if d.Touched != nil {
		d.Touched[b] = true
	}
}

func (d *Disk) event() {
	i := d.Events
	d.Events++
	switch d.Cfg.Relocate {
	case RelocateAlways:
	case RelocateNever:
		return
	default:
		hit := false
		for _, j := range d.Cfg.At {
			if i == j {
				hit = true
			}
		}
		if !hit {
			return
		}
	}
	for _, b := range d.exposed {
		b.exposed = false
		if !b.Live || len(b.Data) > moveLimit {
			continue
		}
		old := b.Data
		b.Data = append(make([]byte, 0, len(old)), old...)
		b.Data = b.Data[:len(old):len(old)]
		poison(old)
	}
	d.exposed = d.exposed[:0]
}

var poisonPage = func() []byte {
	p := make([]byte, stride)
	for i := range p {
		p[i] = PoisonByte
	}
	return p
}()

func poison(b []byte) {
	for len(b) > 0 {
		b = b[copy(b, poisonPage):]
	}
}

func (d *Disk) expose(b *Block) []byte {
	d.touch(b)
	if b.shared {
		b.Data = append(make([]byte, 0, len(b.Data)), b.Data...)
		b.Data = b.Data[:len(b.Data):len(b.Data)]
		b.shared = false
	}
	if !b.exposed {
		b.exposed = true
		d.exposed = append(d.exposed, b)
	}
	return b.Data
}

func (d *Disk) allocate(size int, aligned bool) *Block {
	if size < 0 {
		panic(Violation{fmt.Sprintf("allocation of %d bytes", size)})
	}
	d.event()
	d.Allocs++
	var id int
	n := len(d.free)
	switch {
	case n == 0 || d.Cfg.Reuse == ReuseNever:
		id = len(d.blocks)
		d.blocks = append(d.blocks, nil)
	case d.Cfg.Reuse == ReuseFIFO:
		id = d.free[0]
		d.free = d.free[1:]
	default:
		id = d.free[n-1]
		d.free = d.free[:n-1]
	}
	granted := size
	if !aligned {
		granted += d.Cfg.Slack
	}
	data := make([]byte, granted)
	if d.Cfg.Fill == FillStale {
		for rest := data; len(rest) > 0 && len(d.stale) > 0; {
			rest = rest[copy(rest, d.stale):]
		}
	} else if f := byte(d.Cfg.Fill); f != 0 {
		for i := range data {
			data[i] = f
		}
	}
	addr := d.Cfg.Base + int64(id)*stride
	if !aligned {
		addr += poolSkew
	}
	b := &Block{Addr: addr, Data: data, Size: size, Aligned: aligned, Live: true}
	d.blocks[id] = b
	d.NLive++
	d.Bytes += size
	return b
}

// Lookup returns the live block at the given address, nil if none.
func (d *Disk) Lookup(addr int64) *Block {
	if addr < d.Cfg.Base {
		return nil
	}
	id := (addr - d.Cfg.Base) / stride
	if id >= int64(len(d.blocks)) {
		return nil
	}
	b := d.blocks[id]
	if b == nil || !b.Live || b.Addr != addr {
		return nil
	}
	return b
}

func (d *Disk) mustLookup(addr int64, aligned bool, what string) *Block {
	b := d.Lookup(addr)
	if b == nil {
		panic(Violation{fmt.Sprintf("%s of space at %#x, which is not allocated", what, addr)})
	}
	if b.Aligned != aligned {
		panic(Violation{fmt.Sprintf("%s of space at %#x with the wrong kind (aligned: %v)", what, addr, b.Aligned)})
	}
	return b
}

func (d *Disk) release(addr int64, aligned bool) {
	b := d.mustLookup(addr, aligned, "release")
	d.touch(b)
	d.event()
	d.Frees++
	b.Live = false
	if d.Cfg.Fill == FillStale {
		d.stale = append(d.stale[:0], b.Data...)
	}
	if d.Cfg.Relocate == RelocateAlways && !b.shared {
		poison(b.Data)
	}
	b.Data = nil
	d.free = append(d.free, int((addr-d.Cfg.Base)/stride))
	d.NLive--
	d.Bytes -= b.Size
}

// LiveBlocks returns the blocks allocated, in order of address.
func (d *Disk) LiveBlocks() []*Block {
	var bs []*Block
	for _, b := range d.blocks {
		if b != nil && b.Live {
			bs = append(bs, b)
		}
	}
	return bs
}

// Put allocates space on a disk not open (for building images).
func (d *Disk) Put(size int, aligned bool) *Block {
	d.Exists = true
	return d.allocate(size, aligned)
}

// FileStorage is the model of the file storage.
type FileStorage struct {
	d            *Disk
	primarySpace int64
}

// Init initializes the file storage.
func (fs *FileStorage) Init() *FileStorage {
	fs.primarySpace = -1
	return fs
}

// Open opens the disk registered under the given name.
func (fs *FileStorage) Open(fileName string, createFileIfNotExists bool) error {
	d := GetDisk(fileName)
	if d == nil || !d.Exists {
		if !createFileIfNotExists || d == nil {
			return &os.PathError{Op: "open", Path: fileName, Err: os.ErrNotExist}
		}
		d.Exists = true
	}
	if d.Opened {
		return errors.New("simfsm: already open")
	}
	d.Opened = true
	fs.d = d
	fs.primarySpace = d.Primary
	return nil
}

// Close closes the file storage; all accessors become invalid.
func (fs *FileStorage) Close() error {
	d := fs.disk()
	d.call('C')
	d.Primary = fs.primarySpace
	d.Opened = false
	for _, b := range d.exposed {
		b.exposed = false
		if !b.Live || len(b.Data) > moveLimit {
			continue
		}
		old := b.Data
		b.Data = append(make([]byte, 0, len(old)), old...)
		poison(old)
	}
	d.exposed = nil
	return nil
}

func (fs *FileStorage) disk() *Disk {
	if fs.d == nil || !fs.d.Opened {
		panic(Violation{"use of a file storage which is not open"})
	}
	return fs.d
}

// Disk returns the disk open.
func (fs *FileStorage) Disk() *Disk { return fs.d }

// AllocateSpace allocates space.
func (fs *FileStorage) AllocateSpace(spaceSize int) (int64, []byte) {
	d := fs.disk()
	d.call('a')
	b := d.allocate(spaceSize, false)
	return b.Addr, d.expose(b)
}

// FreeSpace releases space.
func (fs *FileStorage) FreeSpace(space int64) {
	d := fs.disk()
	d.call('f')
	d.release(space, false)
}

// AccessSpace accesses space.
func (fs *FileStorage) AccessSpace(space int64) []byte {
	d := fs.disk()
	d.call('r')
	return d.expose(d.mustLookup(space, false, "access"))
}

// AllocateAlignedSpace allocates aligned space.
func (fs *FileStorage) AllocateAlignedSpace(blockSize int) (int64, []byte) {
	d := fs.disk()
	d.call('A')
	b := d.allocate(blockSize, true)
	return b.Addr, d.expose(b)
}

// FreeAlignedSpace releases aligned space.
func (fs *FileStorage) FreeAlignedSpace(block int64) {
	d := fs.disk()
	d.call('F')
	d.release(block, true)
}

// AccessAlignedSpace accesses aligned space.
func (fs *FileStorage) AccessAlignedSpace(block int64) []byte {
	d := fs.disk()
	d.call('R')
	return d.expose(d.mustLookup(block, true, "access"))
}

// SetPrimarySpace sets the primary space.
func (fs *FileStorage) SetPrimarySpace(primarySpace int64) {
	fs.disk()
	fs.primarySpace = primarySpace
}

// PrimarySpace returns the primary space.
func (fs *FileStorage) PrimarySpace() int64 { return fs.primarySpace }

// Stats returns the stats.
func (fs *FileStorage) Stats() Stats {
	if fs.d == nil {
		return Stats{}
	}
	return fs.d.Stats()
}

// Stats returns the stats of the storage of the disk.
func (d *Disk) Stats() Stats {
	used := len(d.blocks) * stride
	return Stats{SpaceSize: used + 3*stride, UsedSpaceSize: used, MappedSpaceSize: used + 2*stride,
		AllocatedSpaceSize: d.Bytes, BlockAllocationBitmapSize: used/64 + 1, DismissedSpaceSize: used/2 + 5}
}

// Stats represents the stats about file space management.
type Stats struct {
	SpaceSize                 int
	UsedSpaceSize             int
	MappedSpaceSize           int
	AllocatedSpaceSize        int
	BlockAllocationBitmapSize int
	DismissedSpaceSize        int
}
