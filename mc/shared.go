package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
)

// ---- C16: trees, hash maps and foreign space in one storage

// member is a tree or hash map in a shared storage with its reference model.
type member struct {
	tree  *bptree.BPTree
	hash  *hashmap.HashMap
	vals  map[string]string
	id    int
	gone  bool
	made  int
	start int
	iters []*openIter // obtained when it was last changed, if it is a tree
	scan  *openScan   // likewise, if it is a hash map
}

// openIter is an iterator which is in use while others are changed.
type openIter struct {
	it   bptree.Iterator
	keys []string // those left
}

// openScan is a scan under way while others are changed.
type openScan struct {
	c    hashmap.Cursor
	seen map[string]bool
}

// restart obtains iterators or a cursor.
func (m *member) restart() (bad string) {
	m.iters, m.scan = nil, nil
	if m.gone {
		return
	}
	if m.hash != nil {
		m.scan = &openScan{seen: map[string]bool{}}
		return m.proceed()
	}
	ks := make([]string, 0, len(m.vals))
	for k := range m.vals {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	n := len(ks)
	m.iters = append(m.iters, &openIter{m.tree.SearchForward(bptree.MinKey, bptree.MaxKey), ks})
	if n > 0 {
		back := make([]string, 0, n)
		for i := n / 2; i >= 0; i-- {
			back = append(back, ks[i])
		}
		m.iters = append(m.iters, &openIter{m.tree.SearchForward([]byte(ks[n*4/5]), []byte(ks[n-1])), ks[n*4/5:]},
			&openIter{m.tree.SearchBackward(bptree.MinKey, []byte(ks[n/2])), back})
	}
	return
}

// proceed takes every iterator a step on, or the scan.
func (m *member) proceed() string {
	for i, o := range m.iters {
		if len(o.keys) == 0 {
			if !o.it.IsAtEnd() {
				return fmt.Sprintf("%s: iterator %d does not end", m, i)
			}
			continue
		}
		k, v, err := o.it.ReadRecordAll()
		if err != nil || string(k) != o.keys[0] || string(v) != m.vals[o.keys[0]] {
			return fmt.Sprintf("%s: iterator %d is at %s, %s (%v), not at %s", m, i, short(k), short(v), err, short([]byte(o.keys[0])))
		}
		var b [5]byte
		if n, err := o.it.ReadValue(1, b[:]); err != nil || len(v) > 0 && string(b[:n]) != string(v[1:][:n]) {
			return fmt.Sprintf("%s: iterator %d reads other bytes of the value of %s", m, i, short(k))
		}
		o.it.Advance()
		o.keys = o.keys[1:]
	}
	if s := m.scan; s != nil {
		k, v, ok := m.hash.FetchItem(&s.c)
		if !ok {
			if len(s.seen) != len(m.vals) {
				return fmt.Sprintf("%s: a scan ends after %d of %d items", m, len(s.seen), len(m.vals))
			}
			return ""
		}
		if w, has := m.vals[string(k)]; !has || w != string(v) || s.seen[string(k)] {
			return fmt.Sprintf("%s: a scan delivers %s, %s (before: %v)", m, short(k), short(v), s.seen[string(k)])
		}
		s.seen[string(k)] = true
	}
	return ""
}

type foreignSpace struct {
	addr    int64
	aligned bool
	size    int
	fill    byte
}

type shared struct {
	env     *Env
	fs      *fsm.FileStorage
	ms      []*member
	foreign []foreignSpace
	seq     int
	fresh   int // bytes allocated at the start
	mul     int // size of batches
	primary int64
}

func (m *member) init(fs *fsm.FileStorage) {
	if m.id%2 == 0 {
		m.tree = new(bptree.BPTree).Init(fs)
	} else {
		m.hash = new(hashmap.HashMap).Init(fs)
	}
}

func (m *member) create() {
	if m.tree != nil {
		m.tree.Create()
	} else {
		m.hash.Create()
	}
	m.vals = map[string]string{}
	m.gone = false
}

func (m *member) String() string {
	if m.tree != nil {
		return fmt.Sprintf("tree %d", m.id/2)
	}
	return fmt.Sprintf("hash map %d", m.id/2)
}

func (m *member) kind() string {
	if m.tree != nil {
		return "tree"
	}
	return "hash map"
}

func newShared(cfg EnvCfg, members int) *shared {
	x := &shared{env: newEnv(cfg), fs: new(fsm.FileStorage).Init()}
	if err := x.fs.Open(x.env.Name, true); err != nil {
		panic(err)
	}
	x.env.budget(1 << 40)
	x.fresh = x.fs.Stats().AllocatedSpaceSize
	// the primary space is not theirs
	var b []byte
	x.primary, b = x.fs.AllocateSpace(16)
	copy(b, "primary space...")
	x.fs.SetPrimarySpace(x.primary)
	for i := 0; i < members; i++ {
		m := &member{id: i}
		m.init(x.fs)
		m.create()
		x.ms = append(x.ms, m)
	}
	return x
}

// rec makes record i of a member; keys of different members are the same ones.
func (m *member) rec(i, version int) (k, v []byte) {
	switch i % 4 {
	case 0:
		k = append(mixBytes(77, 255), byte(i), byte(i>>8), 'x')
		v = mixBytes(m.id*1000+version*31+i, 140)
	case 1:
		k = []byte{byte(i), byte(i >> 8)}
		v = mixBytes(m.id*1000+version*31+i, 100+i%60)
	case 2:
		k = append([]byte{byte(i), byte(i >> 8)}, mixBytes(78, 240)...)
		v = []byte{byte(m.id), byte(version)}
	default:
		k = append([]byte{byte(i), byte(i >> 8)}, mixBytes(79, 22+i%5)...)
		v = mixBytes(m.id*1000+version*31+i, 120+version%20)
	}
	return
}

func (m *member) set(k, v []byte, kind int) string {
	old, has := m.vals[string(k)]
	var got []byte
	var ok, want bool
	switch {
	case m.tree != nil && kind == 0:
		got, ok = m.tree.AddRecord(k, v, true)
		want = !has
	case m.tree != nil && kind == 1:
		got, ok = m.tree.UpdateRecord(k, v, true)
		want = has
	case m.tree != nil:
		got, ok = m.tree.AddOrUpdateRecord(k, v, true)
		want = !has
	case kind == 0:
		got, ok = m.hash.AddItem(k, v, true)
		want = !has
	case kind == 1:
		got, ok = m.hash.UpdateItem(k, v, true)
		want = has
	default:
		got, ok = m.hash.AddOrUpdateItem(k, v, true)
		want = !has
	}
	if ok != want || string(got) != old {
		return fmt.Sprintf("%s: setting %s (kind %d) gives %s, %v, not %s, %v", m, short(k), kind, short(got), ok, short([]byte(old)), want)
	}
	if kind == 2 || ok {
		m.vals[string(k)] = string(v)
	}
	return ""
}

func (m *member) del(k []byte) string {
	old, has := m.vals[string(k)]
	var got []byte
	var ok bool
	if m.tree != nil {
		got, ok = m.tree.DeleteRecord(k, true)
	} else {
		got, ok = m.hash.DeleteItem(k, true)
	}
	if ok != has || string(got) != old {
		return fmt.Sprintf("%s: deleting %s gives %s, %v", m, short(k), short(got), ok)
	}
	delete(m.vals, string(k))
	return ""
}

// check compares everything with the model.
func (m *member) check() string {
	if m.gone {
		return ""
	}
	pay := 0
	for k, v := range m.vals {
		pay += len(k) + len(v)
	}
	if m.tree != nil {
		if m.tree.NumberOfRecords() != len(m.vals) || m.tree.PayloadSize() != pay {
			return fmt.Sprintf("%s: %d records of %d bytes reported, not %d of %d", m, m.tree.NumberOfRecords(), m.tree.PayloadSize(), len(m.vals), pay)
		}
		ks := make([]string, 0, len(m.vals))
		for k := range m.vals {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		i := 0
		for it := m.tree.SearchForward(bptree.MinKey, bptree.MaxKey); !it.IsAtEnd(); it.Advance() {
			k, v, err := it.ReadRecordAll()
			if err != nil || i >= len(ks) || string(k) != ks[i] || string(v) != m.vals[ks[i]] {
				return fmt.Sprintf("%s: record %d of %d is %s, %s (%v)", m, i, len(ks), short(k), short(v), err)
			}
			i++
		}
		if i != len(ks) {
			return fmt.Sprintf("%s: %d records delivered, not %d", m, i, len(ks))
		}
		for it := m.tree.SearchBackward(bptree.MinKey, bptree.MaxKey); !it.IsAtEnd() && i >= 0; it.Advance() {
			k, err := it.ReadKeyAll()
			i--
			if err != nil || i < 0 || string(k) != ks[i] {
				return fmt.Sprintf("%s: backwards, record %d is %s", m, i, short(k))
			}
		}
		if len(ks) > 0 {
			k := ks[len(ks)/2]
			if v, ok := m.tree.HasRecord([]byte(k), true); !ok || string(v) != m.vals[k] {
				return fmt.Sprintf("%s: lookup of %s gives %s, %v", m, short([]byte(k)), short(v), ok)
			}
		}
		return ""
	}
	if m.hash.NumberOfItems() != len(m.vals) || m.hash.PayloadSize() != pay {
		return fmt.Sprintf("%s: %d items of %d bytes reported, not %d of %d", m, m.hash.NumberOfItems(), m.hash.PayloadSize(), len(m.vals), pay)
	}
	var c hashmap.Cursor
	n := 0
	for {
		k, v, ok := m.hash.FetchItem(&c)
		if !ok {
			break
		}
		n++
		if w, has := m.vals[string(k)]; !has || w != string(v) || n > len(m.vals) {
			return fmt.Sprintf("%s: item %s, %s delivered", m, short(k), short(v))
		}
	}
	if n != len(m.vals) {
		return fmt.Sprintf("%s: %d items delivered, not %d", m, n, len(m.vals))
	}
	n = 0
	for k, v := range m.vals {
		if n++; n > 3 {
			break
		}
		if got, ok := m.hash.HasItem([]byte(k), true); !ok || string(got) != v {
			return fmt.Sprintf("%s: lookup of %s gives %s, %v", m, short([]byte(k)), short(got), ok)
		}
	}
	return ""
}

// actions of a member
const (
	actAdd = iota
	actAddMore
	actUpdate
	actDelete
	actStoreLoad
	actRecreate
	actions
)

// foreign actions, after those of the members
const (
	forSmall = iota
	forAligned
	forFree
	forReopen
	forActions
)

func (m *member) store() int64 {
	if m.tree != nil {
		return m.tree.Store()
	}
	return m.hash.Store()
}

func (m *member) load(a int64) {
	if m.tree != nil {
		m.tree.Load(a)
	} else {
		m.hash.Load(a)
	}
}

func (m *member) destroy() {
	if m.tree != nil {
		m.tree.Destroy()
	} else {
		m.hash.Destroy()
	}
}

func (x *shared) step(a int) (bad string) {
	if bad = x.act(a); bad != "" {
		return
	}
	n := len(x.ms) * actions
	for i, m := range x.ms {
		if a < n && a/actions == i || a-n == forReopen {
			bad = m.restart()
		} else {
			bad = m.proceed()
		}
		if bad != "" {
			return
		}
	}
	return
}

func (x *shared) act(a int) (bad string) {
	x.seq++
	n := len(x.ms) * actions
	if a < n {
		m := x.ms[a/actions]
		size := 26
		if m.hash != nil {
			size = 8
		}
		if x.mul > 1 {
			size *= x.mul
		}
		switch a % actions {
		case actAdd, actAddMore:
			at := 0
			if a%actions == actAddMore {
				at = 1000
				size /= 2
			}
			for i := 0; i < size && bad == ""; i++ {
				k, v := m.rec(at+i*7%size, x.seq)
				bad = m.set(k, v, (i+x.seq)%3)
			}
		case actUpdate:
			for i := 0; i < size && bad == ""; i += 3 {
				k, v := m.rec(i, x.seq+1)
				if i%2 == 0 {
					v = append(v, mixBytes(i, 90)...)
				} else {
					v = v[:len(v)/2]
				}
				bad = m.set(k, v, 1+i%2)
			}
		case actDelete:
			for i := 0; i < size && bad == ""; i++ {
				if i%5 != 4 {
					k, _ := m.rec(i, 0)
					bad = m.del(k)
				}
			}
		case actStoreLoad:
			addr := m.store()
			if x.seq%2 == 0 {
				m.init(x.fs)
			} else if bad = x.interlude(m); bad != "" {
				return
			}
			m.load(addr)
		case actRecreate:
			m.destroy()
			if x.seq%2 == 0 {
				m.init(x.fs)
			}
			m.create()
		}
		return
	}
	switch a - n {
	case forSmall, forAligned:
		f := foreignSpace{aligned: a-n == forAligned, size: 100, fill: byte(x.seq*17 + 1)}
		var b []byte
		if f.aligned {
			f.size = 8192
			f.addr, b = x.fs.AllocateAlignedSpace(f.size)
		} else {
			f.addr, b = x.fs.AllocateSpace(f.size)
		}
		for i := range b[:f.size] {
			b[i] = f.fill
		}
		x.foreign = append(x.foreign, f)
	case forFree:
		if len(x.foreign) == 0 {
			return
		}
		f := x.foreign[0]
		x.foreign = x.foreign[1:]
		if f.aligned {
			x.fs.FreeAlignedSpace(f.addr)
		} else {
			x.fs.FreeSpace(f.addr)
		}
	case forReopen:
		var as []int64
		for _, m := range x.ms {
			as = append(as, m.store())
		}
		p, b := x.fs.AllocateSpace(8 * len(as))
		for i, a := range as {
			binary.BigEndian.PutUint64(b[8*i:], uint64(a))
		}
		primary := x.fs.PrimarySpace()
		x.fs.SetPrimarySpace(p)
		if err := x.fs.Close(); err != nil {
			return "closing fails: " + err.Error()
		}
		x.fs = new(fsm.FileStorage).Init()
		if err := x.fs.Open(x.env.Name, false); err != nil {
			return "opening fails: " + err.Error()
		}
		x.env.budget(1 << 40)
		p = x.fs.PrimarySpace()
		for i, m := range x.ms {
			m.init(x.fs)
			m.load(int64(binary.BigEndian.Uint64(x.fs.AccessSpace(p)[8*i:])))
		}
		x.fs.FreeSpace(p)
		x.fs.SetPrimarySpace(primary)
	}
	return
}

// interlude uses a member whose contents are stored for something else.
func (x *shared) interlude(m *member) (bad string) {
	defer func(vals map[string]string) { m.vals = vals }(m.vals)
	m.create()
	n := 3
	if x.seq%4 == 1 {
		n = 40
	}
	if bad = m.check(); bad == "" && m.tree != nil && (m.tree.Height() != 1 || m.tree.NumberOfLeafs() != 1 || m.tree.NumberOfNonLeafs() != 0) {
		bad = "has a shape"
	}
	if bad != "" {
		return fmt.Sprintf("%s, created again after it was stored: %s", m, bad)
	}
	for i := 0; i < n; i++ {
		k, v := m.rec(i, x.seq+7)
		if bad = m.set(k, v, i%3/2*2); bad != "" {
			return
		}
	}
	if bad = m.check(); bad != "" {
		return
	}
	m.destroy()
	return ""
}

func (x *shared) check() string {
	if x.fs.PrimarySpace() != x.primary {
		return "the primary space of the storage is changed"
	}
	if string(x.fs.AccessSpace(x.primary)[:16]) != "primary space..." {
		return "foreign space is changed"
	}
	for _, m := range x.ms {
		if bad := m.check(); bad != "" {
			return bad
		}
	}
	for _, f := range x.foreign {
		var b []byte
		if f.aligned {
			b = x.fs.AccessAlignedSpace(f.addr)
		} else {
			b = x.fs.AccessSpace(f.addr)
		}
		for _, c := range b[:f.size] {
			if c != f.fill {
				return "foreign space is changed"
			}
		}
	}
	return ""
}

// finish destroys everything, in an order given by k.
func (x *shared) finish(k int) string {
	n := len(x.ms)
	for i := 0; i < n; i++ {
		m := x.ms[(i+k)%n]
		m.destroy()
		m.gone = true
		m.iters, m.scan = nil, nil
		if bad := x.check(); bad != "" {
			return fmt.Sprintf("after destroying %s: %s", m, bad)
		}
	}
	for len(x.foreign) > 0 {
		if bad := x.step(n*actions + forFree); bad != "" {
			return bad
		}
	}
	x.fs.FreeSpace(x.primary)
	x.fs.SetPrimarySpace(-1)
	if b := x.fs.Stats().AllocatedSpaceSize; b != x.fresh {
		return fmt.Sprintf("with everything destroyed %d bytes are allocated, %d at the start", b, x.fresh)
	}
	return ""
}

func (x *shared) name(a int) string {
	n := len(x.ms) * actions
	if a < n {
		return fmt.Sprintf("%s %s", []string{"add to", "add more to", "update", "delete from", "store and load", "destroy and create"}[a%actions], x.ms[a/actions])
	}
	return []string{"allocate foreign space", "allocate foreign page", "release foreign space", "reopen the file"}[a-n]
}

type sharedCase struct {
	Env     EnvCfg `json:"env"`
	Members int    `json:"members"`
	Seq     []int  `json:"seq"`
	Check   int    `json:"check"` // checks every so many steps
	Mul     int    `json:"mul,omitempty"`
}

func (c *sharedCase) run() (bad string) {
	tick()
	var x *shared
	var names []string
	if m := guard(func() {
		x = newShared(c.Env, c.Members)
		x.mul = c.Mul
		for i, a := range c.Seq {
			if len(c.Seq) < 20 {
				names = append(names, x.name(a))
			}
			if bad = x.step(a); bad != "" {
				return
			}
			if (i+1)%c.Check == 0 || i == len(c.Seq)-1 {
				if bad = x.check(); bad != "" {
					return
				}
			}
		}
		k := 0
		for _, a := range c.Seq {
			k += a
		}
		bad = x.finish(k)
	}); m != "" {
		bad = "panics: " + m
	}
	if x != nil {
		guard(func() {
			if !isSim {
				x.fs.Close()
			}
		})
		x.env.drop()
	}
	if bad != "" {
		bad = fmt.Sprintf("%v: %s", names, bad)
	}
	return
}

func sharedTasks(tier string) []Task {
	th := tier == "thorough"
	var ts []Task
	replay := func(raw json.RawMessage) string {
		var c sharedCase
		if json.Unmarshal(raw, &c) != nil || c.Members == 0 {
			return ""
		}
		return c.run()
	}
	enum := func(name string, real bool, members, depth, mul, sh, shards int) {
		n := members*actions + forActions
		ts = append(ts, Task{Name: name, Real: real, Replay: replay,
			Bound: fmt.Sprintf("all sequences of up to %d actions on %d trees and hash maps, foreign space and the file; everything read back after every action", depth, members),
			Run: func(t *T) {
				cnt := 0
				for d := 1; d <= depth; d++ {
					total := 1
					for i := 0; i < d; i++ {
						total *= n
					}
					for y := 0; y < total; y++ {
						if y%shards != sh {
							continue
						}
						if cnt++; cnt%32 == 0 && t.expired() {
							return
						}
						c := sharedCase{Members: members, Check: 1, Mul: mul, Env: envs[(y+d)%4]}
						for i, z := 0, y; i < d; i, z = i+1, z/n {
							c.Seq = append(c.Seq, z%n)
						}
						bad := c.run()
						t.States++
						t.Transitions += int64(d)
						if real {
							t.Traces++
						}
						if bad != "" {
							t.fail(c, "%s", bad)
							return
						}
					}
					t.max("depth", d)
				}
				t.sample("all sequences of %d of %d actions", depth, n)
			}})
	}
	d := 3
	if th {
		d = 4
	}
	for sh := 0; sh < 8; sh++ {
		enum(fmt.Sprintf("mix/%d", sh), false, 4, d, 1, sh, 8)
	}
	for sh := 0; sh < 2; sh++ {
		enum(fmt.Sprintf("pair/%d", sh), false, 2, d+1, 1, sh, 2)
		enum(fmt.Sprintf("big/%d", sh), false, 2, d, 12, sh, 2)
	}
	// contents of many pages and directories
	for sh := 0; sh < 4; sh++ {
		enum(fmt.Sprintf("vast/%d", sh), false, 2, d-1, 900, sh, 4)
	}
	enum("real/vast", true, 2, 1, 900, 0, 1)
	enum("real/mix", true, 4, d-1, 1, 0, 1)
	enum("real/pair", true, 2, d-1, 1, 0, 1)
	enum("real/big", true, 2, d-1, 12, 0, 1)
	// long interleavings, round robin
	for _, real := range []bool{false, true} {
		real := real
		nm := "long"
		if real {
			nm = "real/long"
		}
		ts = append(ts, Task{Name: nm, Real: real, Replay: replay, Bound: "long interleavings in all strides of the actions", Run: func(t *T) {
			n := 4*actions + forActions
			length := 60
			if th {
				length = 400
			}
			for st := 1; st < n; st++ {
				for _, skip := range []int{-1, actRecreate} {
					if t.expired() {
						return
					}
					c := sharedCase{Members: 4, Check: 4, Env: envs[st%4]}
					if st%7 == 3 {
						c.Members, c.Check = 60, 20 // of which the first ones are used more often
					}
					length := length
					if c.Members > 4 {
						length *= 5
					}
					for i, a := 0, 0; i < length; i, a = i+1, (a+st+i/7)%n {
						if a < 4*actions && a%actions == skip {
							a++
						}
						if c.Members > 4 && i%2 == 1 && a < 4*actions {
							c.Seq = append(c.Seq, (a+(i*13)*actions)%(c.Members*actions))
							continue
						}
						if c.Members > 4 && a >= 4*actions {
							c.Seq = append(c.Seq, a%n+(c.Members-4)*actions)
							continue
						}
						c.Seq = append(c.Seq, a%n)
					}
					t.States++
					t.Transitions += int64(length)
					if real {
						t.Traces++
					}
					if bad := c.run(); bad != "" {
						t.fail(c, "%s", bad)
						return
					}
				}
			}
		}})
	}
	return ts
}
