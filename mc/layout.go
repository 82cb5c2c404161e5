package main

// An independent reader and writer of the stored layout (nothing here uses
// code of the repository). The reader feeds state hashing and the oracles on
// stored contents, the writer builds initial states of arbitrary geometry.

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

const (
	pageSize       = 8192
	leafHdr        = 20
	recHdr         = 8
	nonLeafHdr     = 4
	childHdr       = 12
	maxInlineKey   = 256
	keyPrefix      = 249
	maxInlineValue = 128
	valPrefix      = 121
	slotsPerDir    = 4096
	minDirShift    = 3
	shortKey       = 24
)

// Image gives access to allocated space; nil if not allocated.
type Image interface {
	Aligned(addr int64) []byte
	Space(addr int64) []byte
}

// Rec is a record or item.
type Rec struct {
	Key []byte `json:"k"`
	Val []byte `json:"v"`
}

// ---------------------------------------------------------------- tree

type TreeInfo struct {
	Root                          int64
	Height                        int
	Tail, Head                    int64
	Leafs, NonLeafs, Recs, Paylod int64
}

const treeInfoSize = 57

type TNode struct {
	Addr       int64
	Leaf       bool
	Load       int // bytes used in the page, headers of the page excluded
	Recs       []Rec
	Seps       [][]byte // Seps[0] == nil
	Kids       []*TNode
	Prev, Next int64
	depth      int
}

type Tree struct {
	Root      *TNode
	Height    int
	Leafs     []*TNode
	NonLeafs  []*TNode
	Pages     map[int64]bool
	Spaces    map[int64]int // address -> bytes in use
	Forms     [][]byte      // keys kept out of line, as they are in the page
	Records   int
	Payload   int
	Problems  []string // layout problems
	Structure []string // balance, order, separators, leaf list
}

func (t *Tree) bad(f string, a ...interface{}) { t.Problems = append(t.Problems, fmt.Sprintf(f, a...)) }
func (t *Tree) wrong(f string, a ...interface{}) {
	t.Structure = append(t.Structure, fmt.Sprintf(f, a...))
}

func parseTreeInfo(b []byte) (TreeInfo, error) {
	var ti TreeInfo
	if len(b) < treeInfoSize {
		return ti, fmt.Errorf("tree descriptor of %d bytes", len(b))
	}
	be := func(i int) int64 { return int64(binary.BigEndian.Uint64(b[i:])) }
	ti.Root = be(0)
	ti.Height = int(int8(b[8]))
	ti.Tail = be(9)
	ti.Head = be(17)
	ti.Leafs = be(25)
	ti.NonLeafs = be(33)
	ti.Recs = be(41)
	ti.Paylod = be(49)
	return ti, nil
}

func encodeTreeInfo(ti TreeInfo) []byte {
	b := make([]byte, treeInfoSize)
	p := func(i int, v int64) { binary.BigEndian.PutUint64(b[i:], uint64(v)) }
	p(0, ti.Root)
	b[8] = byte(int8(ti.Height))
	p(9, ti.Tail)
	p(17, ti.Head)
	p(25, ti.Leafs)
	p(33, ti.NonLeafs)
	p(41, ti.Recs)
	p(49, ti.Paylod)
	return b
}

func be32(b []byte, i int) int { return int(int32(binary.BigEndian.Uint32(b[i:]))) }
func be64(b []byte, i int) int64 {
	return int64(binary.BigEndian.Uint64(b[i:]))
}

// decodeTree reads the tree with the given root and height.
func decodeTree(img Image, root int64, height int) *Tree {
	t := &Tree{Height: height, Pages: map[int64]bool{}, Spaces: map[int64]int{}}
	if height < 1 || height > 64 {
		t.bad("height %d", height)
		return t
	}
	t.Root = t.node(img, root, 1)
	if t.Root == nil || len(t.Problems) > 0 {
		return t
	}
	// order, separators, list
	var last []byte
	first := true
	for _, l := range t.Leafs {
		for i, r := range l.Recs {
			if !first && bytes.Compare(last, r.Key) >= 0 {
				t.wrong("keys out of order: %s before %s", short(last), short(r.Key))
			}
			first = false
			last = t.Leafs[0].Recs[0].Key
			last = r.Key
			_ = i
		}
		if len(l.Recs) == 0 && len(t.Leafs) > 1 {
			t.wrong("empty leaf %#x", l.Addr)
		}
	}
	n := len(t.Leafs)
	for i, l := range t.Leafs {
		if next := t.Leafs[(i+1)%n].Addr; l.Next != next {
			t.wrong("leaf %d of %d at %#x: next is %#x, not %#x", i, n, l.Addr, l.Next, next)
		}
		if prev := t.Leafs[(i+n-1)%n].Addr; l.Prev != prev {
			t.wrong("leaf %d of %d at %#x: prev is %#x, not %#x", i, n, l.Addr, l.Prev, prev)
		}
	}
	if len(t.Structure) == 0 {
		t.checkSeps(t.Root)
	}
	return t
}

func (t *Tree) checkSeps(nd *TNode) []byte { // returns the smallest key below
	if nd.Leaf {
		if len(nd.Recs) == 0 {
			return nil
		}
		return nd.Recs[0].Key
	}
	var min []byte
	for i, k := range nd.Kids {
		m := t.checkSeps(k)
		if i == 0 {
			min = m
		} else if !bytes.Equal(m, nd.Seps[i]) {
			t.wrong("separator %s over smallest key %s", short(nd.Seps[i]), short(m))
		}
	}
	return min
}

func (t *Tree) node(img Image, addr int64, depth int) *TNode {
	if len(t.Problems) > 0 {
		return nil
	}
	if t.Pages[addr] {
		t.bad("page %#x reached twice", addr)
		return nil
	}
	p := img.Aligned(addr)
	if p == nil || len(p) < pageSize {
		t.bad("no page at %#x", addr)
		return nil
	}
	p = p[:pageSize]
	t.Pages[addr] = true
	nd := &TNode{Addr: addr, Leaf: depth == t.Height, depth: depth}
	if nd.Leaf {
		nd.Prev, nd.Next = be64(p, 0), be64(p, 8)
		n := be32(p, 16)
		if n < 0 || leafHdr+n*recHdr > pageSize {
			t.bad("leaf %#x with %d records", addr, n)
			return nil
		}
		nd.Load = n * recHdr
		lim := leafHdr + n*recHdr
		prev := -1
		nd.Recs = make([]Rec, n)
		for i := 0; i < n; i++ {
			ko, vo := be32(p, leafHdr+i*recHdr), be32(p, leafHdr+i*recHdr+4)
			ve := pageSize
			if i+1 < n {
				ve = be32(p, leafHdr+(i+1)*recHdr)
			}
			if ko < lim || vo < ko || ve < vo || ve > pageSize || (prev >= 0 && ko != prev) {
				t.bad("leaf %#x: record %d of %d has offsets %d, %d, %d (contents start at %d)", addr, i, n, ko, vo, ve, lim)
				return nil
			}
			prev = ve
			if i == 0 {
				nd.Load += pageSize - ko
			}
			k, err := t.inflate(img, p[ko:vo], maxInlineKey, keyPrefix, true)
			if err != nil {
				t.bad("leaf %#x: key of record %d: %v", addr, i, err)
				return nil
			}
			v, err := t.inflate(img, p[vo:ve], maxInlineValue, valPrefix, true)
			if err != nil {
				t.bad("leaf %#x: value of record %d: %v", addr, i, err)
				return nil
			}
			nd.Recs[i] = Rec{k, v}
			t.Records++
			t.Payload += len(k) + len(v)
		}
		t.Leafs = append(t.Leafs, nd)
		return nd
	}
	n := be32(p, 0)
	if n < 1 || nonLeafHdr+n*childHdr > pageSize {
		t.bad("non-leaf %#x with %d children", addr, n)
		return nil
	}
	t.NonLeafs = append(t.NonLeafs, nd)
	nd.Load = n * childHdr
	lim := nonLeafHdr + n*childHdr
	prev := -1
	nd.Seps = make([][]byte, n)
	nd.Kids = make([]*TNode, n)
	for i := 0; i < n; i++ {
		ko := be32(p, nonLeafHdr+i*childHdr)
		ke := pageSize
		if i+1 < n {
			ke = be32(p, nonLeafHdr+(i+1)*childHdr)
		}
		if ko < lim || ke < ko || ke > pageSize || (prev >= 0 && ko != prev) {
			t.bad("non-leaf %#x: child %d of %d has offsets %d, %d (contents start at %d)", addr, i, n, ko, ke, lim)
			return nil
		}
		prev = ke
		if i == 0 {
			nd.Load += pageSize - ko
			if ke != ko {
				t.bad("non-leaf %#x: first child has a key of %d bytes", addr, ke-ko)
				return nil
			}
		} else {
			k, err := t.inflate(img, p[ko:ke], maxInlineKey, keyPrefix, false)
			if err != nil {
				t.bad("non-leaf %#x: key of child %d: %v", addr, i, err)
				return nil
			}
			nd.Seps[i] = k
		}
	}
	for i := 0; i < n; i++ {
		nd.Kids[i] = t.node(img, be64(p, nonLeafHdr+i*childHdr+4), depth+1)
		if nd.Kids[i] == nil {
			return nil
		}
	}
	return nd
}

func (t *Tree) inflate(img Image, b []byte, maxInline, prefix int, own bool) ([]byte, error) {
	if len(b) <= maxInline {
		return append([]byte(nil), b...), nil
	}
	if len(b) != prefix+8 {
		return nil, fmt.Errorf("%d bytes stored", len(b))
	}
	addr := be64(b, prefix)
	o := img.Space(addr)
	if o == nil {
		return nil, fmt.Errorf("rest is at %#x, which is not allocated", addr)
	}
	n, i := binary.Uvarint(o)
	if i <= 0 || uint64(len(o)-i) < n {
		return nil, fmt.Errorf("rest of %d bytes in %d", n, len(o))
	}
	if int(n)+prefix <= maxInline {
		return nil, fmt.Errorf("%d bytes should have been stored in place", int(n)+prefix)
	}
	if own {
		if _, dup := t.Spaces[addr]; dup {
			return nil, fmt.Errorf("rest at %#x is shared", addr)
		}
		t.Spaces[addr] = i + int(n)
	}
	if prefix == keyPrefix && len(t.Forms) < 1000 {
		t.Forms = append(t.Forms, append([]byte(nil), b...))
	}
	r := make([]byte, 0, prefix+int(n))
	r = append(r, b[:prefix]...)
	return append(r, o[i:i+int(n)]...), nil
}

// flatten returns the records in order.
func (t *Tree) flatten() []Rec {
	var rs []Rec
	for _, l := range t.Leafs {
		rs = append(rs, l.Recs...)
	}
	return rs
}

// hash adds a canonical form (no addresses) of the tree to h.
func (t *Tree) hash(h *hasher) {
	h.int(t.Height)
	h.int(len(t.Leafs))
	for _, l := range t.Leafs {
		h.int(len(l.Recs))
		for _, r := range l.Recs {
			h.bytes(r.Key)
			h.bytes(r.Val)
		}
	}
	for _, n := range t.NonLeafs {
		h.int(n.depth)
		h.int(len(n.Kids))
		for _, s := range n.Seps {
			h.bytes(s)
		}
	}
}

// ---------------------------------------------------------------- hash map

type HashInfo struct {
	Dirs      int64
	DirCount  int64
	DirShift  int64
	Slots     int64
	SlotShift int64
	Items     int64
	Payload   int64
}

type HItem struct {
	Sum uint64
	Rec
}

type Table struct {
	Slots    [][]HItem
	DirCap   int // 8-byte elements the space of the directory array holds
	Spaces   map[int64]int
	Items    int
	Payload  int
	Problems []string
	Placing  []string
}

func (t *Table) bad(f string, a ...interface{}) {
	t.Problems = append(t.Problems, fmt.Sprintf(f, a...))
}
func (t *Table) wrong(f string, a ...interface{}) {
	t.Placing = append(t.Placing, fmt.Sprintf(f, a...))
}

type pbField struct {
	num  int
	wire int
	u    uint64
	b    []byte
}

func pbFields(b []byte) ([]pbField, error) {
	var fs []pbField
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, fmt.Errorf("bad tag")
		}
		b = b[n:]
		f := pbField{num: int(tag >> 3), wire: int(tag & 7)}
		switch f.wire {
		case 0:
			u, n := binary.Uvarint(b)
			if n <= 0 {
				return nil, fmt.Errorf("bad varint")
			}
			f.u = u
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return nil, fmt.Errorf("bad fixed64")
			}
			f.u = binary.LittleEndian.Uint64(b)
			b = b[8:]
		case 2:
			u, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < u {
				return nil, fmt.Errorf("bad length")
			}
			f.b = b[n : n+int(u)]
			b = b[n+int(u):]
		default:
			return nil, fmt.Errorf("wire type %d", f.wire)
		}
		fs = append(fs, f)
	}
	return fs, nil
}

func parseHashInfo(b []byte) (HashInfo, error) {
	var hi HashInfo
	n, i := binary.Uvarint(b)
	if i <= 0 || uint64(len(b)-i) < n {
		return hi, fmt.Errorf("bad hash map descriptor")
	}
	fs, err := pbFields(b[i : i+int(n)])
	if err != nil {
		return hi, fmt.Errorf("bad hash map descriptor: %v", err)
	}
	dst := []*int64{nil, &hi.Dirs, &hi.DirCount, &hi.DirShift, &hi.Slots, &hi.SlotShift, &hi.Items, &hi.Payload}
	for _, f := range fs {
		if f.num < 1 || f.num > 7 || f.wire != 0 {
			return hi, fmt.Errorf("hash map descriptor with field %d of type %d", f.num, f.wire)
		}
		*dst[f.num] = int64(f.u)
	}
	return hi, nil
}

func putVarintField(b []byte, num int, v int64) []byte {
	if v == 0 {
		return b
	}
	b = appendUvarint(b, uint64(num<<3))
	return appendUvarint(b, uint64(v))
}

func appendUvarint(b []byte, v uint64) []byte {
	var x [binary.MaxVarintLen64]byte
	return append(b, x[:binary.PutUvarint(x[:], v)]...)
}

func encodeHashInfo(hi HashInfo) []byte {
	var b []byte
	for i, v := range []int64{hi.Dirs, hi.DirCount, hi.DirShift, hi.Slots, hi.SlotShift, hi.Items, hi.Payload} {
		b = putVarintField(b, i+1, v)
	}
	return append(appendUvarint(nil, uint64(len(b))), b...)
}

func fnv64a(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

func encodeSlot(items []Rec) []byte {
	var b, bin []byte
	for i, it := range items {
		var f []byte
		if len(it.Key) > shortKey {
			var x [8]byte
			binary.LittleEndian.PutUint64(x[:], fnv64a(it.Key))
			f = append(append(f, 1<<3|1), x[:]...)
		}
		f = putVarintField(f, 2, int64(len(it.Key)))
		if i+1 < len(items) {
			f = putVarintField(f, 3, int64(len(it.Val)))
		}
		b = append(b, 1<<3|2)
		b = appendUvarint(b, uint64(len(f)))
		b = append(b, f...)
		bin = append(append(bin, it.Key...), it.Val...)
	}
	b = append(b, 2<<3|2)
	b = appendUvarint(b, uint64(len(bin)))
	b = append(b, bin...)
	return append(appendUvarint(nil, uint64(len(b))), b...)
}

func decodeSlot(b []byte) ([]HItem, int, error) {
	n, i := binary.Uvarint(b)
	if i <= 0 || uint64(len(b)-i) < n {
		return nil, 0, fmt.Errorf("slot of %d bytes in %d", n, len(b))
	}
	size := i + int(n)
	fs, err := pbFields(b[i:size])
	if err != nil {
		return nil, 0, err
	}
	type info struct {
		sum uint64
		k   int
		v   int
	}
	var infos []info
	var bin []byte
	for _, f := range fs {
		switch {
		case f.num == 1 && f.wire == 2:
			sub, err := pbFields(f.b)
			if err != nil {
				return nil, 0, err
			}
			var in info
			for _, g := range sub {
				switch {
				case g.num == 1 && g.wire == 1:
					in.sum = g.u
				case g.num == 2 && g.wire == 0:
					in.k = int(g.u)
				case g.num == 3 && g.wire == 0:
					in.v = int(g.u)
				default:
					return nil, 0, fmt.Errorf("item info with field %d of type %d", g.num, g.wire)
				}
			}
			infos = append(infos, in)
		case f.num == 2 && f.wire == 2:
			bin = f.b
		default:
			return nil, 0, fmt.Errorf("slot with field %d of type %d", f.num, f.wire)
		}
	}
	items := make([]HItem, len(infos))
	for j, in := range infos {
		last := j+1 == len(infos)
		if last {
			if in.v != 0 {
				return nil, 0, fmt.Errorf("value size of the last item stored")
			}
			in.v = len(bin) - in.k
		}
		if in.k < 0 || in.v < 0 || in.k > len(bin) || in.k+in.v > len(bin) {
			return nil, 0, fmt.Errorf("item %d of %d: key of %d, value of %d bytes, %d left", j, len(infos), in.k, in.v, len(bin))
		}
		items[j].Sum = in.sum
		items[j].Key = append([]byte(nil), bin[:in.k]...)
		items[j].Val = append([]byte(nil), bin[in.k:in.k+in.v]...)
		bin = bin[in.k+in.v:]
	}
	return items, size, nil
}

func floorLog2(n int) int {
	r := 0
	for n > 1 {
		n >>= 1
		r++
	}
	return r
}

// decodeTable reads the hash table with the given directory array.
func decodeTable(img Image, dirs int64, dirCount, slots int) *Table {
	t := &Table{Spaces: map[int64]int{}}
	da := img.Space(dirs)
	if da == nil {
		t.bad("no directory array at %#x", dirs)
		return t
	}
	t.DirCap = len(da) / 8
	if dirCount < 1 || dirCount > t.DirCap || slots < 1 || slots > dirCount*slotsPerDir {
		t.bad("%d slots in %d directories (room for %d)", slots, dirCount, t.DirCap)
		return t
	}
	t.Spaces[dirs] = 8 * dirCount
	t.Slots = make([][]HItem, slots)
	shift := floorLog2(slots)
	var dir []byte
	for i := 0; i < dirCount; i++ {
		a := be64(da, 8*i)
		d := img.Space(a)
		if d == nil || len(d) < 8*slotsPerDir {
			t.bad("no directory %d of %d at %#x", i, dirCount, a)
			return t
		}
		if _, dup := t.Spaces[a]; dup {
			t.bad("directory %d at %#x is shared", i, a)
			return t
		}
		t.Spaces[a] = 8 * slotsPerDir
	}
	for i := 0; i < slots; i++ {
		if i%slotsPerDir == 0 {
			dir = img.Space(be64(da, 8*(i/slotsPerDir)))
		}
		a := be64(dir, 8*(i%slotsPerDir))
		if a < 0 {
			if a != -1 {
				t.bad("slot %d at %d", i, a)
				return t
			}
			continue
		}
		s := img.Space(a)
		if s == nil {
			t.bad("slot %d is at %#x, which is not allocated", i, a)
			return t
		}
		items, size, err := decodeSlot(s)
		if err != nil {
			t.bad("slot %d: %v", i, err)
			return t
		}
		if _, dup := t.Spaces[a]; dup {
			t.bad("slot %d at %#x is shared", i, a)
			return t
		}
		t.Spaces[a] = size
		t.Slots[i] = items
		for _, it := range items {
			t.Items++
			t.Payload += len(it.Key) + len(it.Val)
			sum := fnv64a(it.Key)
			want := int(sum & uint64(1<<(uint(shift)+1)-1))
			if want >= slots {
				want &^= 1 << uint(shift)
			}
			if want != i {
				t.wrong("key %s is in slot %d of %d, not %d", short(it.Key), i, slots, want)
			}
			if len(it.Key) > shortKey && it.Sum != sum {
				t.wrong("key %s has sum %#x, not %#x", short(it.Key), it.Sum, sum)
			}
			if len(it.Key) <= shortKey && it.Sum != 0 {
				t.wrong("short key %s has sum %#x stored", short(it.Key), it.Sum)
			}
		}
	}
	return t
}

func (t *Table) hash(h *hasher) {
	h.int(len(t.Slots))
	for _, s := range t.Slots {
		h.int(len(s))
		for _, it := range s {
			h.int(int(it.Sum))
			h.bytes(it.Key)
			h.bytes(it.Val)
		}
	}
}

// ---------------------------------------------------------------- hashing

type hasher struct{ a, b uint64 }

func newHasher() *hasher { return &hasher{14695981039346656037, 0x9E3779B97F4A7C15} }

func (h *hasher) mix(v uint64) {
	h.a = (h.a ^ v) * 0x100000001b3
	h.a ^= h.a >> 29
	h.b = (h.b + v) * 0xff51afd7ed558ccd
	h.b ^= h.b >> 32
}

func (h *hasher) int(v int) { h.mix(uint64(v) + 0x51) }

func (h *hasher) bytes(b []byte) {
	h.mix(uint64(len(b)) ^ 0xabcdef)
	for len(b) >= 8 {
		h.mix(binary.LittleEndian.Uint64(b))
		b = b[8:]
	}
	if len(b) > 0 {
		var x [8]byte
		copy(x[:], b)
		h.mix(binary.LittleEndian.Uint64(x[:]))
	}
}

type hashKey [2]uint64

func (h *hasher) sum() hashKey { return hashKey{h.a, h.b} }

func short(b []byte) string {
	if b == nil {
		return "-"
	}
	if len(b) <= 24 {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("%q...(%d bytes)", b[:16], len(b))
}

// ---------------------------------------------------------------- writing

// Writer allocates space in an image under construction.
type Writer interface {
	NewAligned(size int) (int64, []byte)
	NewSpace(size int) (int64, []byte)
	At(addr int64) []byte // the buffer of a space made before
}

// Geom describes a tree: the records leaf by leaf, and for every level above
// the leafs how many nodes of the level below each node has. The last level
// has a single node; no levels for a single leaf.
type Geom struct {
	Leafs  [][]Rec `json:"leafs"`
	Levels [][]int `json:"levels,omitempty"`
	Gen    string  `json:"gen,omitempty"` // made by the function of this name
}

func storedSize(n, maxInline, prefix int) int {
	if n <= maxInline {
		return n
	}
	return prefix + 8
}

func recLoad(r Rec) int {
	return recHdr + storedSize(len(r.Key), maxInlineKey, keyPrefix) + storedSize(len(r.Val), maxInlineValue, valPrefix)
}

func sepLoad(k []byte) int { return childHdr + storedSize(len(k), maxInlineKey, keyPrefix) }

func deflate(w Writer, b []byte, maxInline, prefix int) []byte {
	if len(b) <= maxInline {
		return b
	}
	head := appendUvarint(nil, uint64(len(b)-prefix))
	a, buf := w.NewSpace(len(head) + len(b) - prefix)
	copy(buf[copy(buf, head):], b[prefix:])
	out := make([]byte, prefix+8)
	copy(out, b[:prefix])
	binary.BigEndian.PutUint64(out[prefix:], uint64(a))
	return out
}

func put32(b []byte, i, v int)       { binary.BigEndian.PutUint32(b[i:], uint32(v)) }
func put64(b []byte, i int, v int64) { binary.BigEndian.PutUint64(b[i:], uint64(v)) }

// encodeTree writes a tree and returns its descriptor.
func encodeTree(w Writer, g *Geom) TreeInfo {
	type built struct {
		addr int64
		key  []byte // stored form of the smallest key
	}
	ti := TreeInfo{Height: 1 + len(g.Levels)}
	var level []built
	pages := make([][]byte, len(g.Leafs))
	for i := range g.Leafs {
		a, p := w.NewAligned(pageSize)
		pages[i] = p
		level = append(level, built{addr: a})
	}
	n := len(level)
	for i, recs := range g.Leafs {
		p := pages[i]
		put64(p, 0, level[(i+n-1)%n].addr)
		put64(p, 8, level[(i+1)%n].addr)
		put32(p, 16, len(recs))
		off := pageSize
		for j := len(recs) - 1; j >= 0; j-- {
			k := deflate(w, recs[j].Key, maxInlineKey, keyPrefix)
			v := deflate(w, recs[j].Val, maxInlineValue, valPrefix)
			off -= len(v)
			copy(p[off:], v)
			put32(p, leafHdr+j*recHdr+4, off)
			off -= len(k)
			copy(p[off:], k)
			put32(p, leafHdr+j*recHdr, off)
			if off < leafHdr+len(recs)*recHdr {
				panic("geometry: leaf overflows")
			}
			ti.Recs++
			ti.Paylod += int64(len(recs[j].Key) + len(recs[j].Val))
			level[i].key = k
		}
	}
	ti.Leafs = int64(n)
	ti.Head, ti.Tail = level[0].addr, level[n-1].addr
	for _, counts := range g.Levels {
		var up []built
		for _, c := range counts {
			a, p := w.NewAligned(pageSize)
			kids := level[:c]
			level = level[c:]
			put32(p, 0, c)
			off := pageSize
			for j := c - 1; j >= 0; j-- {
				if j > 0 {
					off -= len(kids[j].key)
					copy(p[off:], kids[j].key)
				}
				put32(p, nonLeafHdr+j*childHdr, off)
				put64(p, nonLeafHdr+j*childHdr+4, kids[j].addr)
			}
			if off < nonLeafHdr+c*childHdr {
				panic("geometry: non-leaf overflows")
			}
			up = append(up, built{a, kids[0].key})
			ti.NonLeafs++
		}
		if len(level) != 0 {
			panic("geometry: children left")
		}
		level = up
	}
	if len(level) != 1 {
		panic("geometry: no single root")
	}
	ti.Root = level[0].addr
	return ti
}

// encodeTable writes a hash table and returns its descriptor.
func encodeTable(w Writer, g *TableGeom) HashInfo {
	items, slots := g.Items, g.Slots
	shift := floorLog2(slots)
	dirCount := (slots+slotsPerDir-1)/slotsPerDir + g.Spare
	dirShift := minDirShift
	for 1<<uint(dirShift) < dirCount {
		dirShift++
	}
	dirShift += g.Wide
	hi := HashInfo{DirCount: int64(dirCount), DirShift: int64(dirShift), Slots: int64(slots), SlotShift: int64(shift), Items: int64(len(items))}
	byslot := make([][]Rec, slots)
	for _, it := range items {
		i := int(fnv64a(it.Key) & uint64(1<<(uint(shift)+1)-1))
		if i >= slots {
			i &^= 1 << uint(shift)
		}
		byslot[i] = append(byslot[i], it)
		hi.Payload += int64(len(it.Key) + len(it.Val))
	}
	a, da := w.NewSpace(8 << uint(dirShift))
	hi.Dirs = a
	var dir []byte
	var dirs []int64
	for i := 0; i < dirCount; i++ {
		a, _ := w.NewSpace(8 * slotsPerDir)
		put64(da, 8*i, a)
		dirs = append(dirs, a)
	}
	for i := 0; i < slots; i++ {
		if i%slotsPerDir == 0 {
			dir = w.At(dirs[i/slotsPerDir])
		}
		sa := int64(-1)
		if len(byslot[i]) > 0 {
			b := encodeSlot(byslot[i])
			var buf []byte
			sa, buf = w.NewSpace(len(b))
			copy(buf, b)
		}
		put64(dir, i%slotsPerDir*8, sa)
	}
	return hi
}
