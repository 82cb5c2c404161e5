package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
)

// ---- C01, C06: agreement with a map

func probeKeys(s *Subj) [][]byte {
	var ps [][]byte
	ks := s.keys()
	add := func(k string) {
		if _, ok := s.get(k); !ok {
			ps = append(ps, []byte(k))
		}
	}
	add("")
	pick := map[int]bool{0: true, len(ks) / 2: true, len(ks) - 1: true, 1: true, len(ks) - 2: true}
	for i, k := range ks {
		if len(ks) > 12 && !pick[i] {
			continue
		}
		add(k + "\x00")
		if len(k) > 0 {
			add(k[:len(k)-1])
			add(k[:len(k)-1] + string([]byte{k[len(k)-1] + 1}))
			add(k[:len(k)/2])
		}
		if v, _ := s.get(k); len(v) > 0 && len(v) < 400 {
			add(k + v)
			add(k + v[:1])
		}
	}
	if s.ord {
		add("\xff\xff")
	}
	return ps
}

func badResult(s *Subj, o *Op, out *Out) string { return out.Bad }

func contentsFinal(s *Subj, p *Path) string {
	if s.lastLook != nil {
		if m := s.look(s.lastLook); m != "" {
			return m
		}
	}
	rs, bad := s.dump()
	if bad != "" {
		return bad
	}
	if m := s.same(rs); m != "" {
		return m
	}
	return s.lookAll(probeKeys(s))
}

// contentsProbe ends with the look-up with which it begins the next time.
func contentsProbe(s *Subj) string {
	m := contentsFinal(s, nil)
	if n := len(s.sorted); m == "" && s.ord && n > 0 {
		s.lastLook = []byte(s.sorted[s.salt%n])
	} else if ks := s.keys(); m == "" && len(ks) > 0 {
		s.lastLook = []byte(ks[s.salt%len(ks)])
	}
	if m == "" && s.lastLook != nil {
		m = s.look(s.lastLook)
	}
	return m
}

func monMap() *Mon {
	return &Mon{after: badResult, probe: contentsProbe, final: contentsFinal}
}

// ---- C02: ranges

type bound struct {
	k    []byte
	mark int
	// k is passed as it is
	shared bool
}

func (b bound) arg(scr bool) []byte {
	switch b.mark {
	case 1:
		return plainkv.MinKey
	case 2:
		return plainkv.MaxKey
	case 3:
		return nil
	}
	if b.shared {
		return b.k
	}
	return append(make([]byte, 0, len(b.k)), b.k...)
}

func (b bound) String() string {
	switch b.mark {
	case 1:
		return "MinKey"
	case 2:
		return "MaxKey"
	case 3:
		return "nil"
	}
	return short(b.k)
}

// expectRange returns the indices of the keys in range.
func expectRange(keys []string, min, max bound) (int, int) {
	n := len(keys)
	lo, hi := 0, n                       // [lo,hi)
	le := func(b bound, k string) bool { // b <= k
		switch b.mark {
		case 1:
			return n == 0 || keys[0] <= k
		case 2:
			return n == 0 || keys[n-1] <= k
		}
		return string(b.k) <= k
	}
	ge := func(b bound, k string) bool { // k <= b
		switch b.mark {
		case 1:
			return n == 0 || k <= keys[0]
		case 2:
			return n == 0 || k <= keys[n-1]
		}
		return k <= string(b.k)
	}
	for lo < n && !le(min, keys[lo]) {
		lo++
	}
	for hi > lo && !ge(max, keys[hi-1]) {
		hi--
	}
	return lo, hi
}

func (s *Subj) rangeOpen(min, max bound, desc bool) plainkv.OrderedDictIterator {
	s.ample()
	if desc {
		return s.od.RangeDesc(min.arg(false), max.arg(false))
	}
	return s.od.RangeAsc(min.arg(false), max.arg(false))
}

func (s *Subj) checkRange(min, max bound, desc bool) (bad string) {
	name := "RangeAsc"
	if desc {
		name = "RangeDesc"
	}
	lo, hi := expectRange(s.sorted, min, max)
	m := guard(func() {
		it := s.rangeOpen(min, max, desc)
		for i := lo; i < hi; i++ {
			k := s.sorted[i]
			if desc {
				k = s.sorted[hi-1-(i-lo)]
			}
			if it.IsAtEnd() {
				bad = fmt.Sprintf("ends after %d of %d records", i-lo, hi-lo)
				return
			}
			gk, gv, err := it.ReadRecordAll()
			if err != nil {
				bad = "ReadRecordAll fails: " + err.Error()
				return
			}
			if string(gk) != k {
				bad = fmt.Sprintf("record %d of %d has key %s, not %s", i-lo, hi-lo, short(gk), short([]byte(k)))
				return
			}
			if string(gv) != s.vals[k] {
				bad = fmt.Sprintf("key %s has value %s, not %s", short(gk), short(gv), short([]byte(s.vals[k])))
				return
			}
			it.Advance()
		}
		if !it.IsAtEnd() {
			k, _ := it.ReadKeyAll()
			bad = fmt.Sprintf("goes on after %d records with key %s", hi-lo, short(k))
			return
		}
		it.Advance()
		if !it.IsAtEnd() {
			bad = "leaves its end when advanced"
		}
	})
	if m != "" {
		bad = "panics: " + m
	}
	if bad != "" {
		bad = fmt.Sprintf("%s(%s,%s) over %d records: %s", name, min, max, len(s.sorted), bad)
	}
	return
}

// rangeBounds selects bounds: all keys and gaps of a small dictionary, those
// at the borders of leafs of a bigger one, at most limit.
func rangeBounds(s *Subj, limit int) []bound {
	bs := []bound{{mark: 1}, {mark: 2}, {k: []byte{}}, {mark: 3}, {k: []byte("\xff\xff\xff")}}
	n := len(s.sorted)
	seen := map[string]bool{"": true}
	add := func(k string) {
		if !seen[k] && len(bs) < limit {
			seen[k] = true
			bs = append(bs, bound{k: []byte(k)})
		}
	}
	around := func(k string) {
		add(k)
		add(k + "\x00")
		if len(k) > 0 {
			// just before
			if c := k[len(k)-1]; c > 0 {
				add(k[:len(k)-1] + string([]byte{c - 1}) + "\xff")
			} else {
				add(k[:len(k)-1])
			}
		}
	}
	if n*3+5 <= limit {
		for _, k := range s.sorted {
			around(k)
		}
		return bs
	}
	if isSim {
		if t := s.peekTree(); t != nil && len(t.Problems) == 0 && len(t.Leafs) > 1 {
			var order []int
			nl := len(t.Leafs)
			order = append(order, 0, nl-1, nl/2)
			if nl <= 4 {
				order = []int{0, 1, 2, 3}
			}
			for _, i := range order {
				if i < nl && len(t.Leafs[i].Recs) > 0 {
					l := t.Leafs[i]
					add(string(l.Recs[len(l.Recs)-1].Key) + "\x00") // the gap behind
					around(string(l.Recs[0].Key))
					add(string(l.Recs[len(l.Recs)-1].Key))
				}
			}
		}
	}
	for i := 0; i < 4; i++ {
		around(s.sorted[i*(n-1)/3])
	}
	return bs
}

// aRange is a range which has been read.
type aRange struct {
	min, max bound
	desc     bool
}

// rangeProbe reads some of the ranges which are judged at the end, the one
// read last before first of all.
func rangeProbe(s *Subj) string {
	if m := s.rangeAgain(); m != "" {
		return m
	}
	bs := rangeBounds(s, 9)
	var rs []aRange
	for i, min := range bs {
		for j, max := range bs {
			if i > 1 && j > 1 && (i+j)%3 != 0 {
				continue
			}
			rs = append(rs, aRange{min, max, (i+j)%2 == 0})
			if i+j == 1 {
				rs = append(rs, aRange{min, max, true})
			}
		}
	}
	for i := range rs {
		r := rs[(i+s.salt)%len(rs)]
		s.lastRange = &r
		if m := s.checkRange(r.min, r.max, r.desc); m != "" {
			return m
		}
	}
	return ""
}

func (s *Subj) rangeAgain() string {
	if r := s.lastRange; r != nil {
		return s.checkRange(r.min, r.max, r.desc)
	}
	return ""
}

func monRange(limit int) *Mon {
	return &Mon{probe: rangeProbe, final: func(s *Subj, p *Path) string {
		if m := s.rangeAgain(); m != "" {
			return m
		}
		bs := rangeBounds(s, limit)
		for _, min := range bs {
			for _, max := range bs {
				for _, desc := range []bool{false, true} {
					if m := s.checkRange(min, max, desc); m != "" {
						return m
					}
				}
			}
		}
		return ""
	}}
}

// ---- C03: iterators

var allLens = []int{0, 1, 2, 7, 8, 9, 120, 121, 122, 128, 129, 130, 248, 249, 250, 255, 256, 257, 258, 300}

// offsets of interest in data of the given size.
func offsets(size int, dense bool) []int {
	os := []int{math.MaxInt32, math.MaxInt - 256, math.MaxInt - 120, math.MaxInt - 1, math.MaxInt}
	// the lower bits alone are within the data
	for _, b := range []uint{8, 16, 24, 31, 32, 33, 48, 62} {
		os = append(os, 1<<b+size/2)
	}
	if dense && size <= 600 {
		for i := 0; i <= size+2; i++ {
			os = append(os, i)
		}
		return os
	}
	m := map[int]bool{}
	for _, o := range []int{0, 1, 2, size / 2, 120, 121, 122, 128, 129, 248, 249, 250, 256, 257, size - 2, size - 1, size, size + 1, size + 1000} {
		if o >= 0 && !m[o] {
			m[o] = true
			os = append(os, o)
		}
	}
	return os
}

func lengths(size int) []int {
	m := map[int]bool{}
	var ls []int
	for _, l := range []int{0, 1, 2, 121, 122, 128, 129, 249, 250, 257, size - 1, size, size + 1, size + 300} {
		if l >= 0 && !m[l] {
			m[l] = true
			ls = append(ls, l)
		}
	}
	return ls
}

func checkPartial(what string, read func(off int, buf []byte) (int, error), data string, dense bool) string {
	for _, off := range offsets(len(data), dense) {
		for _, l := range lengths(len(data)) {
			buf := make([]byte, l+4)
			for i := range buf {
				buf[i] = 0xC3
			}
			n, err := read(off, buf[:l])
			if err != nil {
				return fmt.Sprintf("%s(%d, %d bytes) of %d fails: %v", what, off, l, len(data), err)
			}
			want := len(data) - off
			if want < 0 {
				want = 0
			}
			if want > l {
				want = l
			}
			if n != want {
				return fmt.Sprintf("%s(%d, %d bytes) of %d reads %d bytes, not %d", what, off, l, len(data), n, want)
			}
			if want > 0 && string(buf[:n]) != data[off:off+n] {
				return fmt.Sprintf("%s(%d, %d bytes) of %d delivers wrong bytes", what, off, l, len(data))
			}
			for _, c := range buf[n:] {
				if c != 0xC3 {
					return fmt.Sprintf("%s(%d, %d bytes) of %d writes behind the %d bytes read", what, off, l, len(data), n)
				}
			}
		}
	}
	return ""
}

// checkPosition checks everything an iterator tells about its record.
func checkPosition(it plainkv.OrderedDictIterator, k, v string, dense bool) string {
	if it.IsAtEnd() {
		return "at end at " + short([]byte(k))
	}
	if n, err := it.GetKeySize(); err != nil || n != len(k) {
		return fmt.Sprintf("GetKeySize of %s gives %d, %v", short([]byte(k)), n, err)
	}
	if n, err := it.GetValueSize(); err != nil || n != len(v) {
		return fmt.Sprintf("GetValueSize of %s gives %d, not %d, %v", short([]byte(k)), n, len(v), err)
	}
	if b, err := it.ReadKeyAll(); err != nil || string(b) != k {
		return fmt.Sprintf("ReadKeyAll gives %s, not %s, %v", short(b), short([]byte(k)), err)
	}
	if b, err := it.ReadValueAll(); err != nil || string(b) != v {
		return fmt.Sprintf("ReadValueAll of %s gives %s, not %s, %v", short([]byte(k)), short(b), short([]byte(v)), err)
	}
	if a, b, err := it.ReadRecordAll(); err != nil || string(a) != k || string(b) != v {
		return fmt.Sprintf("ReadRecordAll gives %s, %s, %v, not %s, %s", short(a), short(b), err, short([]byte(k)), short([]byte(v)))
	}
	if m := checkPartial("ReadKey", it.ReadKey, k, dense); m != "" {
		return m
	}
	return checkPartial("ReadValue", it.ReadValue, v, dense)
}

func checkEnd(it plainkv.OrderedDictIterator) string {
	for round := 0; round < 2; round++ {
		if !it.IsAtEnd() {
			return "not at end after the last record"
		}
		buf := []byte{1, 2, 3}
		if _, err := it.GetKeySize(); err == nil {
			return "GetKeySize at the end gives no error"
		}
		if _, err := it.GetValueSize(); err == nil {
			return "GetValueSize at the end gives no error"
		}
		if b, err := it.ReadKeyAll(); err == nil || len(b) != 0 {
			return "ReadKeyAll at the end gives no error or data"
		}
		if b, err := it.ReadValueAll(); err == nil || len(b) != 0 {
			return "ReadValueAll at the end gives no error or data"
		}
		if a, b, err := it.ReadRecordAll(); err == nil || len(a)+len(b) != 0 {
			return "ReadRecordAll at the end gives no error or data"
		}
		if n, err := it.ReadKey(0, buf); err == nil || n != 0 {
			return "ReadKey at the end gives no error or data"
		}
		if n, err := it.ReadValue(0, buf); err == nil || n != 0 {
			return "ReadValue at the end gives no error or data"
		}
		if !bytes.Equal(buf, []byte{1, 2, 3}) {
			return "reading at the end changes the buffer"
		}
		it.Advance()
	}
	return ""
}

// checkIterator runs one iterator over a range, checking every position.
func (s *Subj) checkIterator(min, max bound, desc, dense bool, budget int) (bad string) {
	lo, hi := expectRange(s.sorted, min, max)
	m := guard(func() {
		it := s.rangeOpen(min, max, desc)
		for i := lo; i < hi; i++ {
			k := s.sorted[i]
			if desc {
				k = s.sorted[hi-1-(i-lo)]
			}
			s.ample()
			full := hi-lo <= budget || i < lo+budget/2 || i >= hi-budget/2
			if full {
				if bad = checkPosition(it, k, s.vals[k], dense); bad != "" {
					return
				}
			}
			if it.IsAtEnd() {
				bad = "at end too early"
				return
			}
			it2 := it.Advance()
			if it2 == nil {
				bad = "Advance returns no iterator"
				return
			}
			it = it2
		}
		bad = checkEnd(it)
	})
	if m != "" {
		bad = "panics: " + m
	}
	if bad != "" {
		bad = fmt.Sprintf("iterating %s to %s (descending: %v) over %d records: %s", min, max, desc, len(s.sorted), bad)
	}
	return
}

// checkTwo interleaves two iterators.
func (s *Subj) checkTwo(da, db bool, step int) (bad string) {
	n := len(s.sorted)
	m := guard(func() {
		a := s.rangeOpen(bound{mark: 1}, bound{mark: 2}, da)
		b := s.rangeOpen(bound{mark: 1}, bound{mark: 2}, db)
		i, j := 0, 0
		key := func(x int, desc bool) string {
			if desc {
				return s.sorted[n-1-x]
			}
			return s.sorted[x]
		}
		probe := func(it plainkv.OrderedDictIterator, x int, desc bool) string {
			if x >= n {
				if !it.IsAtEnd() {
					return "not at end"
				}
				return ""
			}
			k := key(x, desc)
			gk, gv, err := it.ReadRecordAll()
			if err != nil || string(gk) != k || string(gv) != s.vals[k] {
				return fmt.Sprintf("delivers %s, not %s (%v)", short(gk), short([]byte(k)), err)
			}
			return ""
		}
		for i < n || j < n {
			if bad = probe(a, i, da); bad != "" {
				return
			}
			if bad = probe(b, j, db); bad != "" {
				return
			}
			for q := 0; q < step && i < n; q++ {
				a.Advance()
				i++
			}
			if bad = probe(b, j, db); bad != "" {
				return
			}
			if j < n {
				b.Advance()
				j++
			}
			if bad = probe(a, i, da); bad != "" {
				return
			}
		}
	})
	if m != "" {
		bad = "panics: " + m
	}
	if bad != "" {
		bad = fmt.Sprintf("two iterators at once over %d records: %s", n, bad)
	}
	return
}

// iterProbe uses some of the iterators which are judged at the end.
func iterProbe(s *Subj) string {
	bad := ""
	n := len(s.sorted)
	m := guard(func() {
		for _, desc := range []bool{false, true} {
			it := s.rangeOpen(bound{mark: 1}, bound{mark: 2}, desc)
			for i := 0; i < n; i++ {
				k := s.sorted[i]
				if desc {
					k = s.sorted[n-1-i]
				}
				v := s.vals[k]
				if it.IsAtEnd() {
					bad = "at end too early"
					return
				}
				if i < 6 || i+6 > n {
					buf := make([]byte, 40)
					for _, off := range []int{0, len(k) / 2} {
						c, err := it.ReadKey(off, buf)
						if err != nil || string(buf[:c]) != firstOf(k[off:], 40) {
							bad = fmt.Sprintf("ReadKey(%d) of %s gives %s (%v)", off, short([]byte(k)), short(buf[:c]), err)
							return
						}
					}
					for _, off := range []int{0, len(v) / 2} {
						c, err := it.ReadValue(off, buf)
						if err != nil || string(buf[:c]) != firstOf(v[off:], 40) {
							bad = fmt.Sprintf("ReadValue(%d) of %s gives %s (%v)", off, short([]byte(v)), short(buf[:c]), err)
							return
						}
					}
					if gk, err := it.ReadKeyAll(); err != nil || string(gk) != k {
						bad = fmt.Sprintf("ReadKeyAll gives %s, not %s (%v)", short(gk), short([]byte(k)), err)
						return
					}
					if gv, err := it.ReadValueAll(); err != nil || string(gv) != v {
						bad = fmt.Sprintf("ReadValueAll gives %s, not %s (%v)", short(gv), short([]byte(v)), err)
						return
					}
				}
				it = it.Advance()
			}
			if !it.IsAtEnd() {
				bad = "not at end"
				return
			}
		}
	})
	if m != "" {
		bad = "panics: " + m
	}
	if bad != "" {
		bad = fmt.Sprintf("iterating over %d records: %s", n, bad)
	}
	return bad
}

func firstOf(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func monIter(dense bool, budget int) *Mon {
	return &Mon{probe: iterProbe, final: func(s *Subj, p *Path) string {
		all := [][2]bound{{{mark: 1}, {mark: 2}}}
		if n := len(s.sorted); n > 0 {
			all = append(all, [2]bound{{k: []byte(s.sorted[n/2])}, {mark: 2}}, [2]bound{{mark: 1}, {k: []byte(s.sorted[n/2])}},
				[2]bound{{k: []byte(s.sorted[n/2] + "\x00")}, {k: []byte(s.sorted[n-1])}})
		}
		all = append(all, [2]bound{{k: []byte("\xff\xfe")}, {k: []byte("\xff\xff")}}, [2]bound{{mark: 2}, {k: []byte("")}}, [2]bound{{mark: 1}, {mark: 3}}, [2]bound{{mark: 3}, {mark: 2}})
		for i, b := range all {
			for _, desc := range []bool{false, true} {
				if m := s.checkIterator(b[0], b[1], desc, dense && i == 0, budget); m != "" {
					return m
				}
			}
		}
		for _, da := range []bool{false, true} {
			for _, db := range []bool{false, true} {
				if m := s.checkTwo(da, db, 1+len(s.sorted)%2); m != "" {
					return m
				}
			}
		}
		return ""
	}}
}

// ---- C04: structure

func structBad(t *Tree) string {
	if len(t.Problems) > 0 {
		return "tree of height " + fmt.Sprint(t.Height) + " is malformed: " + t.Problems[0]
	}
	if len(t.Structure) > 0 {
		return "tree is out of shape: " + t.Structure[0]
	}
	for _, l := range t.Leafs {
		if l != t.Root && (l.Load+leafHdr)*4 < pageSize {
			return fmt.Sprintf("leaf of %d records and %d bytes is less than a quarter full (%d leafs, height %d)", len(l.Recs), l.Load, len(t.Leafs), t.Height)
		}
	}
	for _, l := range t.NonLeafs {
		if l != t.Root && (l.Load+nonLeafHdr)*4 < pageSize {
			return fmt.Sprintf("non-leaf of %d children and %d bytes is less than a quarter full (%d leafs, height %d)", len(l.Kids), l.Load, len(t.Leafs), t.Height)
		}
	}
	if !t.Root.Leaf && len(t.Root.Kids) < 2 {
		return "root has a single child"
	}
	return ""
}

// peekStruct judges the tree of an open dictionary; "" if it cannot be seen.
func peekStruct(s *Subj) string {
	if !isSim {
		return ""
	}
	t := s.peekTree()
	if t == nil {
		return ""
	}
	if m := structBad(t); m != "" {
		// the descriptor is authoritative
		return closedStruct(s)
	}
	return ""
}

// closedTree closes the dictionary and reads the tree the descriptor names.
func (s *Subj) closedTree() (t *Tree, ti TreeInfo, bad string) {
	if m := s.close(); m != "" {
		return nil, ti, m
	}
	s.env.image(func(img Image, primary int64) {
		b := img.Space(primary)
		if b == nil {
			bad = "no descriptor in the closed file"
			return
		}
		var err error
		if ti, err = parseTreeInfo(b); err != nil {
			bad = err.Error()
			return
		}
		t = decodeTree(img, ti.Root, ti.Height)
	})
	return
}

func closedStruct(s *Subj) string {
	n, bad := s.nums()
	if bad != "" {
		return bad
	}
	t, ti, bad := s.closedTree()
	if bad == "" {
		bad = structBad(t)
	}
	if bad == "" && n.Height != ti.Height {
		bad = fmt.Sprintf("height %d reported, %d stored", n.Height, ti.Height)
	}
	if bad == "" && (ti.Head != t.Leafs[0].Addr || ti.Tail != t.Leafs[len(t.Leafs)-1].Addr) {
		bad = "the leaf list does not start and end at the first and last leaf"
	}
	if bad == "" {
		rs := t.flatten()
		bad = s.same(rs)
	}
	if m := s.open(false); m != "" && bad == "" {
		bad = m
	}
	return bad
}

func monStruct() *Mon {
	return &Mon{
		state: peekStruct,
		final: func(s *Subj, p *Path) string { return closedStruct(s) },
	}
}

// ---- C08: table size

const (
	loadMax = 1.6181
	loadMin = 0.8090
)

func tableSizeBad(n Nums) string {
	if n.Slots < 1 || n.Dirs < 1 {
		return fmt.Sprintf("%d slots, %d directories", n.Slots, n.Dirs)
	}
	lf := float64(n.Records) / float64(n.Slots)
	if lf > loadMax {
		return fmt.Sprintf("%d items in %d slots: more than %.4f each", n.Records, n.Slots, loadMax)
	}
	if n.Slots > 1 && lf < loadMin {
		return fmt.Sprintf("%d items in %d slots: less than %.4f each", n.Records, n.Slots, loadMin)
	}
	need := (n.Slots + slotsPerDir - 1) / slotsPerDir
	if n.Dirs < need || n.Dirs > need+1 {
		return fmt.Sprintf("%d directories for %d slots", n.Dirs, n.Slots)
	}
	if n.Records == 0 && (n.Slots != 1 || n.Dirs != 1) {
		return fmt.Sprintf("emptied, but %d slots in %d directories", n.Slots, n.Dirs)
	}
	return ""
}

func numsBad(s *Subj) string {
	n, bad := s.nums()
	if bad != "" {
		return bad
	}
	if n.Records != len(s.vals) {
		return fmt.Sprintf("%d items reported, %d present", n.Records, len(s.vals))
	}
	return tableSizeBad(n)
}

func (s *Subj) closedTable() (t *Table, hi HashInfo, bad string) {
	if m := s.close(); m != "" {
		return nil, hi, m
	}
	s.env.image(func(img Image, primary int64) {
		b := img.Space(primary)
		if b == nil {
			bad = "no descriptor in the closed file"
			return
		}
		var err error
		if hi, err = parseHashInfo(b); err != nil {
			bad = err.Error()
			return
		}
		t = decodeTable(img, hi.Dirs, int(hi.DirCount), int(hi.Slots))
	})
	return
}

func closedTableBad(s *Subj) string {
	n, bad := s.nums()
	if bad != "" {
		return bad
	}
	t, hi, bad := s.closedTable()
	switch {
	case bad != "":
	case len(t.Problems) > 0:
		bad = "table is malformed: " + t.Problems[0]
	case len(t.Placing) > 0:
		bad = t.Placing[0]
	case int(hi.Slots) != n.Slots || int(hi.DirCount) != n.Dirs:
		bad = fmt.Sprintf("%d slots and %d directories reported, %d and %d stored", n.Slots, n.Dirs, hi.Slots, hi.DirCount)
	}
	if m := s.open(false); m != "" && bad == "" {
		bad = m
	}
	if bad == "" {
		n2, m := s.nums()
		if m != "" {
			bad = m
		} else if n2 != n {
			bad = fmt.Sprintf("reopening changes the statistics from %+v to %+v", n, n2)
		}
	}
	return bad
}

func monTable() *Mon {
	return &Mon{
		state: numsBad,
		final: func(s *Subj, p *Path) string {
			if m := numsBad(s); m != "" {
				return m
			}
			return closedTableBad(s)
		},
	}
}

// ---- C07: scanning

func scanStep(s *Subj, c *plainkv.DictCursor, got map[string]int) (more bool, bad string) {
	s.ample()
	k, v, ok := s.dd.Scan(c)
	if !ok {
		if len(k)+len(v) != 0 {
			return false, "the end of a scan delivers data"
		}
		return false, ""
	}
	w, present := s.vals[string(k)]
	if !present {
		return true, fmt.Sprintf("a scan delivers key %s, which is absent", short(k))
	}
	if w != string(v) {
		return true, fmt.Sprintf("a scan delivers value %s for key %s, not %s", short(v), short(k), short([]byte(w)))
	}
	got[string(k)]++
	if got[string(k)] > 1 {
		return true, fmt.Sprintf("a scan delivers key %s twice", short(k))
	}
	return true, ""
}

// runScans advances cursors in the order given by sched (indices), then ends all.
func runScans(s *Subj, cursors int, sched []int, lookups bool) (bad string) {
	m := guard(func() {
		cs := make([]plainkv.DictCursor, cursors)
		got := make([]map[string]int, cursors)
		for i := range got {
			got[i] = map[string]int{}
		}
		ended := make([]bool, cursors)
		step := func(i int) {
			more, b := scanStep(s, &cs[i], got[i])
			if b != "" {
				bad = b
				return
			}
			if more && ended[i] {
				bad = "a scan goes on after its end"
				return
			}
			if !more {
				ended[i] = true
				if len(got[i]) != len(s.vals) {
					bad = fmt.Sprintf("a scan ends after %d of %d items", len(got[i]), len(s.vals))
				}
			}
		}
		keys := s.keys()
		for n, i := range sched {
			if step(i); bad != "" {
				return
			}
			if lookups && len(keys) > 0 {
				k := []byte(keys[n%len(keys)])
				if v, ok := s.dd.Test(k, true); !ok || string(v) != s.vals[string(k)] {
					bad = fmt.Sprintf("Test of %s during a scan gives %s, %v", short(k), short(v), ok)
					return
				}
				s.dd.Test([]byte("absent\x00key"), true)
			}
		}
		for i := 0; i < cursors; i++ {
			for n := 0; n < len(s.vals)+3; n++ {
				if step(i); bad != "" {
					return
				}
			}
			if !ended[i] {
				bad = "a scan does not end"
				return
			}
		}
	})
	if m != "" {
		bad = "scanning panics: " + m
	}
	return
}

// copiedScans scans with a cursor which is copied after at items; the copies
// are scans in progress of their own.
func copiedScans(s *Subj, at int) (bad string) {
	m := guard(func() {
		cs := make([]plainkv.DictCursor, 3)
		got := make([]map[string]int, len(cs))
		first := map[string]int{}
		for i := 0; i < at; i++ {
			if _, bad = scanStep(s, &cs[0], first); bad != "" {
				return
			}
		}
		for i := range cs {
			cs[i] = cs[0]
			got[i] = map[string]int{}
			for k := range first {
				got[i][k] = 1
			}
		}
		// in turn, one to its end, in turn
		for n := 0; n < 4*len(s.vals)+20; n++ {
			i := n % 3
			if n > 4 && n < 5+len(s.vals) {
				i = 1
			}
			var more bool
			if more, bad = scanStep(s, &cs[i], got[i]); bad == "" && !more && len(got[i]) != len(s.vals) {
				bad = fmt.Sprintf("a scan ends after %d of %d items", len(got[i]), len(s.vals))
			}
			if bad != "" {
				bad += fmt.Sprintf(" (copy %d of a cursor, made after %d items)", i, at)
				return
			}
		}
		for i := range got {
			if len(got[i]) != len(s.vals) {
				bad = fmt.Sprintf("copy %d of a cursor, made after %d items, delivers %d of %d items", i, at, len(got[i]), len(s.vals))
			}
		}
	})
	if m != "" {
		bad = "scanning panics: " + m
	}
	return
}

func monScan(maxInterleave int) *Mon {
	return &Mon{probe: func(s *Subj) string { return (monScan(2).final)(s, nil) }, final: func(s *Subj, p *Path) string {
		n := len(s.vals)
		for at := 0; at <= n+1; at++ {
			if n > 8 && at != 1 && at != n/2 && at < n {
				continue
			}
			if m := copiedScans(s, at); m != "" {
				return m
			}
		}
		if m := runScans(s, 1, nil, false); m != "" {
			return m
		}
		if m := runScans(s, 1, make([]int, n+2), true); m != "" {
			return m
		}
		if n <= maxInterleave {
			// all interleavings of two scans
			var rec func(sched []int, a, b int) string
			rec = func(sched []int, a, b int) string {
				if a == 0 && b == 0 {
					return runScans(s, 2, sched, len(sched)%2 == 0)
				}
				if a > 0 {
					if m := rec(append(append([]int(nil), sched...), 0), a-1, b); m != "" {
						return m
					}
				}
				if b > 0 {
					if m := rec(append(append([]int(nil), sched...), 1), a, b-1); m != "" {
						return m
					}
				}
				return ""
			}
			return rec(nil, n+1, n+1)
		}
		var sched []int
		for i := 0; i < 2*n && i < 3000; i++ {
			sched = append(sched, (i*i/3)%3)
		}
		return runScans(s, 3, sched, true)
	}}
}

// ---- C11: space

var freshLive = map[string][3]int{}

// overhead returns the space a fresh dictionary occupies: live blocks, bytes,
// and live blocks not belonging to its contents.
func overhead(ord bool, cfg EnvCfg) [3]int {
	key := fmt.Sprint(ord, cfg)
	if o, ok := freshLive[key]; ok {
		return o
	}
	p := Path{Ord: ord, Env: cfg}
	s, bad := startPath(&p, nil, false)
	if bad != "" {
		panic(bad)
	}
	n, b := s.env.live()
	o := [3]int{n, b, n - s.ownBlocks()}
	s.end()
	freshLive[key] = o
	return o
}

// ownBlocks counts the blocks the contents consist of, -1 if unknown.
func (s *Subj) ownBlocks() int {
	if s.ord {
		if t := s.peekTree(); t != nil && len(t.Problems) == 0 {
			return len(t.Pages) + len(t.Spaces)
		}
		return -1
	}
	if t := s.peekTable(); t != nil && len(t.Problems) == 0 {
		return len(t.Spaces)
	}
	return -1
}

// space used according to the interface (real storage).
func (s *Subj) fsmBytes() int {
	if s.ord {
		return s.od.Stats().FSM.AllocatedSpaceSize
	}
	return s.dd.Stats().FSM.AllocatedSpaceSize
}

var freshBytes = map[bool]int{}

func emptyBytes(ord bool) int {
	if n, ok := freshBytes[ord]; ok {
		return n
	}
	p := Path{Ord: ord}
	s, bad := startPath(&p, nil, false)
	if bad != "" {
		panic(bad)
	}
	n := s.fsmBytes()
	s.end()
	freshBytes[ord] = n
	return n
}

func leakBad(s *Subj) string {
	if !isSim {
		return ""
	}
	own := s.ownBlocks()
	n, _ := s.env.live()
	if own >= 0 {
		if extra := n - own - overhead(s.ord, s.env.Cfg)[2]; extra != 0 {
			return fmt.Sprintf("%d spaces allocated beyond those the contents (%d records) consist of", extra, len(s.vals))
		}
	}
	return ""
}

// drain clears all records in the given order.
func (s *Subj) drain(order int) string {
	ks := append([]string(nil), s.keys()...)
	n := len(ks)
	idx := make([]int, 0, n)
	switch order {
	case 0:
		for i := range ks {
			idx = append(idx, i)
		}
	case 1:
		for i := range ks {
			idx = append(idx, n-1-i)
		}
	case 2: // from the middle outwards
		for d := 0; len(idx) < n; d++ {
			if i := n/2 + d; i < n {
				idx = append(idx, i)
			}
			if i := n/2 - 1 - d; i >= 0 {
				idx = append(idx, i)
			}
		}
	default: // strided
		st := order
		for st > 1 && n > 0 && gcd(st, n) != 1 {
			st++
		}
		for i, x := 0, 0; i < n; i, x = i+1, (x+st)%n {
			idx = append(idx, x)
		}
	}
	for _, i := range idx {
		o := Op{Kind: opClear, K: []byte(ks[i]), Want: i%2 == 0}
		out := s.do(&o)
		if out.Panic != "" {
			return o.String() + " panics: " + out.Panic
		}
		if out.Bad != "" {
			return out.Bad
		}
	}
	return ""
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func emptiedBad(s *Subj, when string) string {
	if isSim {
		n, b := s.env.live()
		f := overhead(s.ord, s.env.Cfg)
		if n != f[0] || b != f[1] {
			return fmt.Sprintf("%s: %d spaces of %d bytes are allocated, %d of %d in a fresh dictionary", when, n, b, f[0], f[1])
		}
		return ""
	}
	if n, f := s.fsmBytes(), emptyBytes(s.ord); n != f {
		return fmt.Sprintf("%s: %d bytes are allocated, %d in a fresh dictionary", when, n, f)
	}
	return ""
}

// allocatedIn returns what is allocated in a storage: the bytes it reports,
// and the spaces and their size if that is known.
func (e *Env) allocatedIn(fs *fsm.FileStorage) (a [3]int) {
	a[0] = fs.Stats().AllocatedSpaceSize
	a[1], a[2] = e.live()
	return
}

var bareStorages = map[string][3]int{}

// bareStorage returns what is allocated in a storage nothing was put into.
func bareStorage(cfg EnvCfg) [3]int {
	c := cfg
	c.Pre = nil
	key := fmt.Sprint(c)
	if cfg.Pre != nil {
		key += fmt.Sprint(*cfg.Pre)
	}
	if a, ok := bareStorages[key]; ok {
		return a
	}
	e := newEnv(cfg)
	defer e.drop()
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(e.Name, true); err != nil {
		panic(err)
	}
	a := e.allocatedIn(fs)
	if err := fs.Close(); err != nil {
		panic(err)
	}
	bareStorages[key] = a
	return a
}

// destroyed closes the dictionary, loads the tree or hash map the file
// consists of and destroys it: everything must be released. Then another one
// is created there, filled a little, stored and opened as a dictionary.
func (s *Subj) destroyed(k int) (bad string) {
	n := len(s.vals)
	bare := bareStorage(s.env.Cfg)
	if m := s.close(); m != "" {
		return m
	}
	vals := map[string]string{}
	if m := guard(func() {
		fs := new(fsm.FileStorage).Init()
		if err := fs.Open(s.env.Name, false); err != nil {
			bad = "opening the storage fails: " + err.Error()
			return
		}
		s.env.budget(1 << 40)
		m := member{}
		if !s.ord {
			m.id = 1
		}
		m.init(fs)
		primary := fs.PrimarySpace()
		m.load(primary)
		fs.SetPrimarySpace(-1)
		m.destroy()
		if a := s.env.allocatedIn(fs); a != bare {
			bad = fmt.Sprintf("with the %s of %d records destroyed %d bytes (%d spaces of %d bytes) are allocated, %d (%d of %d) before it was created",
				m.kind(), n, a[0], a[1], a[2], bare[0], bare[1], bare[2])
		}
		if k%2 == 0 {
			m.init(fs)
		}
		m.create()
		for i := 0; i < 9 && bad == ""; i++ {
			key, v := m.rec(i, k)
			bad = m.set(key, v, 2)
		}
		vals = m.vals
		fs.SetPrimarySpace(m.store())
		if err := fs.Close(); err != nil && bad == "" {
			bad = "closing the storage fails: " + err.Error()
		}
	}); m != "" && bad == "" {
		bad = fmt.Sprintf("destroying %d records and creating anew panics: %s", n, m)
	}
	if bad != "" {
		return bad
	}
	s.vals, s.sorted = map[string]string{}, nil
	for key, v := range vals {
		s.put(key, v)
	}
	if m := s.open(false); m != "" {
		return "destroyed and created anew: " + m
	}
	if m := leakBad(s); m != "" {
		return "destroyed and created anew: " + m
	}
	if m := s.drain(k % 5); m != "" {
		return "destroyed and created anew: " + m
	}
	return emptiedBad(s, "destroyed, created anew and emptied")
}

var drainSeq int

func monSpace() *Mon {
	return &Mon{
		after: nil,
		state: leakBad,
		final: func(s *Subj, p *Path) string {
			drainSeq = len(p.Ops) + len(s.vals)
			if drainSeq%3 == 1 {
				ro := Op{Kind: opReopen}
				if out := s.do(&ro); out.Panic != "" {
					return out.Panic
				}
				if m := leakBad(s); m != "" {
					return "after reopening: " + m
				}
			}
			if drainSeq%3 == 2 {
				return s.destroyed(drainSeq)
			}
			if m := s.drain(drainSeq % 5); m != "" {
				return m
			}
			if m := emptiedBad(s, "emptied"); m != "" {
				return m
			}
			if drainSeq%2 == 0 {
				ro := Op{Kind: opReopen}
				if out := s.do(&ro); out.Panic != "" {
					return out.Panic
				}
				return emptiedBad(s, "emptied and reopened")
			}
			return ""
		},
	}
}

// ---- C12: statistics

func statsBad(s *Subj) string {
	n, bad := s.nums()
	if bad != "" {
		return bad
	}
	if n.Records != len(s.vals) {
		return fmt.Sprintf("%d records reported, %d present", n.Records, len(s.vals))
	}
	if p := s.payload(); n.Payload != p {
		return fmt.Sprintf("payload of %d bytes reported, %d present in %d records", n.Payload, p, len(s.vals))
	}
	if want, ok := s.env.fsmStats(); ok {
		var got fsm.Stats
		if bad := guard(func() {
			if s.ord {
				got = s.od.Stats().FSM
			} else {
				got = s.dd.Stats().FSM
			}
		}); bad != "" {
			return bad
		}
		if got != want {
			return fmt.Sprintf("statistics of the storage are %+v, reported are %+v", want, got)
		}
	}
	if !isSim {
		return ""
	}
	if s.ord {
		t := s.peekTree()
		if t == nil || len(t.Problems) > 0 {
			return ""
		}
		if n.Leafs != len(t.Leafs) || n.NonLeafs != len(t.NonLeafs) {
			return fmt.Sprintf("%d leafs and %d non-leafs reported, %d and %d present", n.Leafs, n.NonLeafs, len(t.Leafs), len(t.NonLeafs))
		}
	}
	return ""
}

func statsFinal(s *Subj, p *Path) string {
	if m := statsBad(s); m != "" {
		return m
	}
	before, _ := s.nums()
	bad := ""
	if s.ord {
		t, ti, m := s.closedTree()
		switch {
		case m != "":
			bad = m
		case len(t.Problems) > 0:
			bad = fmt.Sprintf("no tree of the height %d reported: %s", before.Height, t.Problems[0])
		case len(t.Leafs) != before.Leafs || len(t.NonLeafs) != before.NonLeafs || ti.Height != before.Height ||
			t.Records != before.Records || t.Payload != before.Payload:
			bad = fmt.Sprintf("%+v reported; height %d, %d leafs, %d non-leafs, %d records, payload %d stored", before, ti.Height, len(t.Leafs), len(t.NonLeafs), t.Records, t.Payload)
		}
	} else {
		t, hi, m := s.closedTable()
		switch {
		case m != "":
			bad = m
		case len(t.Problems) > 0:
			bad = fmt.Sprintf("no table of %d slots in %d directories as reported: %s", before.Slots, before.Dirs, t.Problems[0])
		case len(t.Placing) > 0:
			bad = fmt.Sprintf("no table of %d slots as reported: %s", before.Slots, t.Placing[0])
		case int(hi.Slots) != before.Slots || int(hi.DirCount) != before.Dirs || t.Items != before.Records || t.Payload != before.Payload:
			bad = fmt.Sprintf("%+v reported; %d slots, %d directories, %d items, payload %d stored", before, hi.Slots, hi.DirCount, t.Items, t.Payload)
		}
	}
	if m := s.open(false); m != "" && bad == "" {
		bad = m
	}
	if bad == "" {
		after, m := s.nums()
		if m != "" {
			bad = m
		} else if after != before {
			bad = fmt.Sprintf("statistics are %+v before and %+v after reopening", before, after)
		}
	}
	return bad
}

func monStats() *Mon { return &Mon{probe: statsBad, state: statsBad, final: statsFinal} }

// ---- C13: no aliasing

func monAlias() *Mon {
	return &Mon{
		scribble: true,
		after: func(s *Subj, o *Op, out *Out) string {
			if out.Bad != "" {
				return out.Bad
			}
			return s.checkHanded()
		},
		probe: func(s *Subj) string {
			rs, bad := s.dump()
			if bad != "" {
				return bad
			}
			if m := s.same(rs); m != "" {
				return "with arguments and results overwritten: " + m
			}
			for i, r := range rs {
				if i < 4 || i+4 > len(rs) {
					s.hand(r.Key, "a key read")
					s.hand(r.Val, "a value read")
				}
			}
			return s.checkHanded()
		},
		final: func(s *Subj, p *Path) string {
			rs, bad := s.dump()
			if bad != "" {
				return bad
			}
			if m := s.same(rs); m != "" {
				return "with arguments and results overwritten: " + m
			}
			first := len(s.handed)
			for _, r := range rs {
				s.hand(r.Key, "a key read")
				s.hand(r.Val, "a value read")
			}
			if m := s.partialHand(); m != "" {
				return m
			}
			if m := s.checkHanded(); m != "" {
				return m
			}
			// overwriting must not have changed anything
			if rs, bad = s.dump(); bad != "" {
				return bad
			}
			if m := s.same(rs); m != "" {
				return "after overwriting what was handed out: " + m
			}
			// nor may later operations change what was handed out
			for i, r := range rs {
				if i >= 6 {
					break
				}
				for _, o := range []Op{{Kind: opSet, K: r.Key, V: fillBytes('z', len(r.Val)), Want: true}, {Kind: opClear, K: r.Key, Want: true},
					{Kind: opSetNX, K: r.Key, V: fillBytes('y', len(r.Val)+1)}} {
					o := o
					out := s.do(&o)
					if out.Panic != "" {
						return o.String() + " panics: " + out.Panic
					}
					if out.Bad != "" {
						return out.Bad
					}
					if m := s.checkHanded(); m != "" {
						return fmt.Sprintf("%s (after %s)", m, &o)
					}
				}
			}
			_ = first
			if m := s.close(); m != "" {
				return m
			}
			if m := s.checkHanded(); m != "" {
				return m + " (after Close)"
			}
			if m := s.open(false); m != "" {
				return m
			}
			if rs, bad = s.dump(); bad != "" {
				return bad
			}
			return s.same(rs)
		},
	}
}

// partialHand keeps the slices of whole-key and whole-value reads, too.
func (s *Subj) partialHand() (bad string) {
	if !s.ord {
		// a cursor must survive the overwriting of what it delivered
		m := guard(func() {
			var c plainkv.DictCursor
			got := map[string]int{}
			s.ample()
			for n := 0; n <= len(s.vals); n++ {
				k, v, ok := s.dd.Scan(&c)
				if !ok {
					break
				}
				w, present := s.vals[string(k)]
				if !present || w != string(v) || got[string(k)] > 0 {
					bad = fmt.Sprintf("a scan whose results are overwritten delivers %s, %s", short(k), short(v))
					return
				}
				got[string(k)]++
				s.handed = append(s.handed, handedOut{v, append([]byte(nil), v...), "a value scanned"})
				if n%2 == 0 {
					// behind the key lies nothing of the dictionary's
					scribbleOver(k)
				} else {
					s.handed[len(s.handed)-1] = handedOut{k, append([]byte(nil), k...), "a key scanned"}
					scribbleOver(v)
				}
			}
			if len(got) != len(s.vals) {
				bad = fmt.Sprintf("a scan whose results are overwritten delivers %d of %d items", len(got), len(s.vals))
			}
		})
		if m != "" {
			bad = "scanning panics: " + m
		}
		return
	}
	m := guard(func() {
		// the bounds of a range may be overwritten as soon as it is made
		if bad = s.boundsHand(); bad != "" {
			return
		}
		i := 0
		s.ample()
		for it := s.od.RangeDesc(bptree.MinKey, bptree.MaxKey); !it.IsAtEnd(); it.Advance() {
			k, err := it.ReadKeyAll()
			v, err2 := it.ReadValueAll()
			if err != nil || err2 != nil {
				bad = "reading fails"
				return
			}
			s.hand(k, "a key read")
			s.hand(v, "a value read")
			if i++; i > 40 {
				return
			}
			// what was read before must not influence reading again
			k2, _ := it.ReadKeyAll()
			v2, _ := it.ReadValueAll()
			if w, ok := s.vals[string(k2)]; !ok || w != string(v2) {
				bad = fmt.Sprintf("reading again after overwriting gives %s, %s", short(k2), short(v2))
				return
			}
		}
	})
	if m != "" {
		bad = "iterating panics: " + m
	}
	return
}

// boundsHand overwrites the bounds of ranges before iterating over them.
func (s *Subj) boundsHand() string {
	n := len(s.sorted)
	if n == 0 {
		return ""
	}
	for _, c := range [][2]int{{0, n - 1}, {n / 3, minInt(n/3+7, n-1)}} {
		for dir := 0; dir < 2; dir++ {
			for _, over := range []byte{0, 1, 0xFF} {
				lo, hi := []byte(s.sorted[c[0]]), []byte(s.sorted[c[1]])
				s.ample()
				it := s.od.RangeAsc(lo, hi)
				if dir == 1 {
					it = s.od.RangeDesc(lo, hi)
				}
				for _, b := range [][]byte{lo, hi} {
					for i := range b {
						if over == 1 {
							b[i] ^= 0x5A
						} else {
							b[i] = over
						}
					}
				}
				count := 0
				for ; !it.IsAtEnd(); it.Advance() {
					if count++; count > c[1]-c[0]+1 {
						break
					}
					want := s.sorted[c[0]+count-1]
					if dir == 1 {
						want = s.sorted[c[1]-count+1]
					}
					if k, err := it.ReadKeyAll(); err != nil || string(k) != want {
						return fmt.Sprintf("a range whose bounds are overwritten delivers %s, %v, not %s", short(k), err, short([]byte(want)))
					}
				}
				if count != c[1]-c[0]+1 {
					return fmt.Sprintf("a range whose bounds are overwritten delivers %d or more records, not %d", count, c[1]-c[0]+1)
				}
			}
		}
	}
	return ""
}

// ---- C14: reads change nothing

// quiet tells whether the operation must not change anything.
func (s *Subj) quiet(o *Op) bool {
	if o.Kind == opTest {
		return true
	}
	if o.Kind > opClear {
		return false
	}
	present := false
	if o.Mark != 0 && s.ord {
		present = len(s.sorted) > 0
	} else {
		_, present = s.get(string(o.K))
	}
	switch o.Kind {
	case opSetX, opClear:
		return !present
	case opSetNX:
		return present
	}
	return false
}

type snap struct {
	on     bool
	hash   hashKey
	nums   Nums
	blocks int
	bytes  int
}

func (s *Subj) snapshot() snap {
	n, _ := s.nums()
	sn := snap{on: true, nums: n}
	if isSim {
		sn.hash = s.env.contentHash()
		sn.blocks, sn.bytes = s.env.live()
	} else {
		sn.bytes = s.fsmBytes()
	}
	return sn
}

func (a snap) diff(b snap) string {
	switch {
	case a.nums != b.nums:
		return fmt.Sprintf("changes the statistics from %+v to %+v", a.nums, b.nums)
	case a.blocks != b.blocks || a.bytes != b.bytes:
		return fmt.Sprintf("changes the space in use from %d to %d bytes", a.bytes, b.bytes)
	case a.hash != b.hash:
		return "changes stored bytes"
	}
	return ""
}

func monQuiet() *Mon {
	var before snap
	return &Mon{
		before: func(s *Subj, o *Op) {
			before.on = false
			if s.quiet(o) {
				before = s.snapshot()
			}
		},
		after: func(s *Subj, o *Op, out *Out) string {
			if before.on {
				if m := before.diff(s.snapshot()); m != "" {
					return fmt.Sprintf("%s, which does nothing, %s", o, m)
				}
			}
			return ""
		},
		final: func(s *Subj, p *Path) string {
			a := s.snapshot()
			if s.ord {
				m := ""
				pm := guard(func() {
					half := len(s.sorted) / 2
					it := s.rangeOpen(bound{mark: 1}, bound{mark: 2}, false)
					for i := 0; i < half; i++ {
						it.Advance()
					}
					if m = (monRange(7)).final(s, p); m != "" {
						return
					}
					if m = (monIter(false, 4)).final(s, p); m != "" {
						return
					}
					if m = s.lookAll(probeKeys(s)); m != "" {
						return
					}
					for _, k := range probeKeys(s) {
						for _, o := range []Op{{Kind: opClear, K: k, Want: true}, {Kind: opSetX, K: k, V: fillBytes('q', 200), Want: true}} {
							o := o
							s.do(&o)
						}
					}
					for i, k := range s.sorted {
						if i < 4 || i+2 > len(s.sorted) {
							o := Op{Kind: opSetNX, K: []byte(k), V: fillBytes('q', 300), Want: i%2 == 0}
							s.do(&o)
						}
					}
					for i := half; i < len(s.sorted); i++ {
						k, v, err := it.ReadRecordAll()
						if err != nil || string(k) != s.sorted[i] || string(v) != s.vals[s.sorted[i]] {
							m = "an iterator is disturbed by reading"
							return
						}
						it.Advance()
					}
					if !it.IsAtEnd() {
						m = "an iterator is disturbed by reading"
					}
				})
				if pm != "" {
					m = pm
				}
				if m != "" {
					return m
				}
			} else {
				if m := (monScan(2)).final(s, p); m != "" {
					return m
				}
				if m := s.lookAll(probeKeys(s)); m != "" {
					return m
				}
				for _, k := range probeKeys(s) {
					for _, o := range []Op{{Kind: opClear, K: k, Want: true}, {Kind: opSetX, K: k, V: fillBytes('q', 200), Want: true}} {
						o := o
						s.do(&o)
					}
				}
				for i, k := range s.keys() {
					if i < 6 {
						o := Op{Kind: opSetNX, K: []byte(k), V: fillBytes('q', 300), Want: i%2 == 0}
						s.do(&o)
					}
				}
			}
			if m := a.diff(s.snapshot()); m != "" {
				return "reading " + m
			}
			return ""
		},
	}
}

// ---- C05, C09: reopening

// fingerprint is what must not depend on reopening.
type fingerprint struct {
	nums Nums
	hash hashKey
	ok   bool
}

func (s *Subj) fingerprint() fingerprint {
	f := fingerprint{ok: true}
	f.nums, _ = s.nums()
	if !isSim {
		return f
	}
	h := newHasher()
	if s.ord {
		if t := s.peekTree(); t != nil && len(t.Problems) == 0 {
			t.hash(h)
		} else {
			f.ok = false
		}
	} else {
		if t := s.peekTable(); t != nil && len(t.Problems) == 0 {
			t.hash(h)
		} else {
			f.ok = false
		}
	}
	f.hash = h.sum()
	return f
}

func (a fingerprint) diff(b fingerprint) string {
	if a.nums != b.nums {
		return fmt.Sprintf("statistics are %+v with and %+v without reopening", b.nums, a.nums)
	}
	if a.ok && b.ok && a.hash != b.hash {
		return "the shape differs from that without reopening"
	}
	return ""
}

// contOps are operations tried after reopening.
func contOps(s *Subj) []Op {
	var ops []Op
	ks := s.keys()
	n := len(ks)
	add := func(o Op) { ops = append(ops, o) }
	add(Op{Kind: opSet, K: []byte("Cont"), V: fillBytes('1', 200), Want: true})
	if n > 0 {
		add(Op{Kind: opClear, K: []byte(ks[0]), Want: true})
		add(Op{Kind: opSet, K: []byte(ks[n/2]), V: fillBytes('2', 131), Want: true})
		add(Op{Kind: opSet, K: append([]byte(ks[n/2]), pad("!", 200)...), V: fillBytes('3', 129), Want: true})
		add(Op{Kind: opSet, K: append([]byte(ks[n-1]), pad("!", 250)...), V: fillBytes('4', 3), Want: true})
		add(Op{Kind: opClear, K: []byte(ks[n-1]), Want: true})
		add(Op{Kind: opTest, K: []byte(ks[n/3]), Want: true})
		add(Op{Kind: opClear, K: []byte(ks[n/3]), Want: true})
	}
	add(Op{Kind: opSetNX, K: []byte("cont2"), V: nil, Want: true})
	add(Op{Kind: opClear, K: []byte("Cont"), Want: true})
	return ops
}

// rangesBad compares ranges, which must be as without reopening.
func rangesBad(s, tw *Subj, limit int) string {
	if !s.ord {
		return ""
	}
	bs := rangeBounds(s, limit)
	for _, min := range bs {
		for _, max := range bs {
			for _, desc := range []bool{false, true} {
				if m := s.checkRange(min, max, desc); m != "" && tw.checkRange(min, max, desc) == "" {
					return "after reopening, and not without: " + m
				}
			}
		}
	}
	return ""
}

func monReopen() *Mon {
	return &Mon{
		after: badResult,
		probe: func(s *Subj) string {
			// what is read is not judged here
			s.dump()
			s.lookAll(probeKeys(s))
			s.nums()
			return ""
		},
		final: func(s *Subj, p *Path) string {
			// the twin is never closed
			q := *p
			q.Ops = nil
			for _, o := range p.Ops {
				if o.Kind != opReopen {
					q.Ops = append(q.Ops, o)
				}
			}
			tmpl := template(&q)
			if tmpl != nil {
				defer tmpl.drop()
			}
			tw, bad := runPath(&q, tmpl, &Mon{}, 0)
			defer tw.end()
			if bad != "" {
				return ""
			}
			if m := tw.fingerprint().diff(s.fingerprint()); m != "" {
				return m
			}
			ro := Op{Kind: opReopen}
			if out := s.do(&ro); out.Panic != "" {
				return out.Panic
			}
			if m := tw.fingerprint().diff(s.fingerprint()); m != "" {
				return m
			}
			rs, bad := s.dump()
			if bad != "" {
				return "after reopening: " + bad
			}
			if m := s.same(rs); m != "" {
				return "after reopening: " + m
			}
			if m := rangesBad(s, tw, 9); m != "" {
				return m
			}
			for i, o := range contOps(s) {
				o := o
				a, b := tw.do(&o), s.do(&o)
				if a.Panic != "" {
					return "" // fails without reopening, too
				}
				if b.Panic != "" {
					return fmt.Sprintf("after reopening, %s panics: %s", o, b.Panic)
				}
				if a.Ok != b.Ok || !bytes.Equal(a.Val, b.Val) {
					return fmt.Sprintf("after reopening, %s gives %s, %v, not %s, %v", o, short(b.Val), b.Ok, short(a.Val), a.Ok)
				}
				if m := tw.fingerprint().diff(s.fingerprint()); m != "" {
					return fmt.Sprintf("after %s: %s", o, m)
				}
				if i%3 == 1 {
					if out := s.do(&ro); out.Panic != "" {
						return out.Panic
					}
				}
			}
			rs, bad = s.dump()
			if bad != "" {
				return "after reopening: " + bad
			}
			if m := s.same(rs); m != "" {
				return "after reopening: " + m
			}
			rs2, _ := tw.dump()
			if len(rs2) != len(rs) {
				return "contents differ from those without reopening"
			}
			for i := range rs {
				if !bytes.Equal(rs[i].Key, rs2[i].Key) || !bytes.Equal(rs[i].Val, rs2[i].Val) {
					return "records differ from those without reopening"
				}
			}
			return rangesBad(s, tw, 7)
		},
	}
}

// ---- C20: stored layout, read back independently

func monLayout() *Mon {
	return &Mon{
		after: badResult,
		final: func(s *Subj, p *Path) string {
			bad := ""
			if s.ord {
				t, ti, m := s.closedTree()
				switch {
				case m != "":
					bad = m
				case len(t.Problems) > 0:
					bad = "unreadable: " + t.Problems[0]
				case len(t.Structure) > 0:
					bad = "unreadable: " + t.Structure[0]
				case ti.Head != t.Leafs[0].Addr || ti.Tail != t.Leafs[len(t.Leafs)-1].Addr:
					bad = "the descriptor names the wrong first or last leaf"
				case int(ti.Leafs) != len(t.Leafs) || int(ti.NonLeafs) != len(t.NonLeafs) || int(ti.Recs) != t.Records || int(ti.Paylod) != t.Payload:
					bad = fmt.Sprintf("the descriptor %+v disagrees with %d leafs, %d non-leafs, %d records, payload %d", ti, len(t.Leafs), len(t.NonLeafs), t.Records, t.Payload)
				default:
					bad = s.same(t.flatten())
				}
			} else {
				t, hi, m := s.closedTable()
				switch {
				case m != "":
					bad = m
				case len(t.Problems) > 0:
					bad = "unreadable: " + t.Problems[0]
				case len(t.Placing) > 0:
					bad = t.Placing[0]
				case int(hi.Items) != t.Items || int(hi.Payload) != t.Payload || int(hi.SlotShift) != floorLog2(int(hi.Slots)) || 1<<uint(hi.DirShift) > t.DirCap:
					bad = fmt.Sprintf("the descriptor %+v disagrees with %d items, payload %d", hi, t.Items, t.Payload)
				default:
					var rs []Rec
					for _, sl := range t.Slots {
						for _, it := range sl {
							rs = append(rs, it.Rec)
						}
					}
					bad = s.same(rs)
				}
			}
			if bad != "" {
				bad = "the closed file: " + bad
			}
			if m := s.open(false); m != "" && bad == "" {
				bad = m
			}
			return bad
		},
	}
}
